--------------------------------- MODULE Wasm ---------------------------------
(***************************************************************************)
(* A WebAssembly module: its binary format and its validation, after the   *)
(* core specification (version 1, with sign extension, saturating          *)
(* conversions and bulk memory).                                           *)
(*                                                                         *)
(* The machine reads the bytes of a module from the start to the end.      *)
(* Between sections it is in mode "sec", in an instruction sequence in     *)
(* mode "code"; the control stack and the operand stack hold types, and    *)
(* what follows an unconditional branch is polymorphic.  It halts with     *)
(* "ok" at the end of a valid module which the runtime of the repository   *)
(* can instantiate and run (its imports are what the runtime provides, its *)
(* data fits into one page, and main is exported), or with the reason why  *)
(* it isn't one.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Batch                                   \* instructions per transition
Modules == JsonDeserialize(IOEnv.WASM_MODULES)   \* sequence of sequences of bytes

VARIABLES m, s
vars == <<m, s>>
B == Modules[m]

I32 == 127  I64 == 126  F32 == 125  F64 == 124
Poly == 0                                         \* an operand of a stack that can't be reached
ValTypes == {I32, I64, F32, F64}
PageSize == 65536
\* what the runtime provides, by the text of its names: "module.field"
MemoryImport == <<114,117,110,116,105,109,101,46,109,101,109,111,114,121>>      \* runtime.memory
MainName == <<109,97,105,110>>
Std(f) == <<115,116,100,108,105,98,46>> \o f     \* stdlib.
\* number of parameters and of results of the functions of the library: the
\* compiler passes them the arguments' addresses or values
StdNames == {Std(<<112,114,105,110,116,102>>),                                   \* printf
             Std(<<115,116,114,116,111,108>>), Std(<<115,116,114,116,111,117,108>>), \* strtol strtoul
             Std(<<115,116,114,108,101,110>>), Std(<<115,116,114,115,116,114>>),     \* strlen strstr
             Std(<<108,111,103,95,115,116,97,99,107,95,112,116,114>>)}               \* log_stack_ptr

Bad(st, why) == [st EXCEPT !.mode = "halt", !.why = why]
ByteAt(p) == IF 1 <= p /\ p <= Len(B) THEN B[p] ELSE -1

(* ------------------------------ integers -------------------------------- *)
\* an unsigned 32-bit integer in LEB128 at p: <<value, next position>>; the
\* value is -1 if it is malformed, or too large to be the number of anything here
RECURSIVE ULeb(_, _, _, _)
ULeb(p, k, mul, acc) ==
    LET b == ByteAt(p) IN
    IF b < 0 \/ k > 5 THEN <<-1, p>>
    ELSE IF k = 5 /\ b > 15 THEN <<-1, p>>
    ELSE LET v == IF acc < 0 \/ (k >= 4 /\ b % 128 >= 64) \/ (k = 5 /\ b % 128 # 0) THEN -1
                  ELSE acc + (b % 128) * mul
         IN IF b < 128 THEN <<v, p + 1>>
            ELSE ULeb(p + 1, k + 1, IF k < 4 THEN mul * 128 ELSE 1, v)
U32(p) == ULeb(p, 1, 1, 0)
\* the position after a signed LEB128 integer of n bits at p, 0 if it is malformed
RECURSIVE SLebEnd(_, _, _)
SLebEnd(p, k, n) ==
    LET b == ByteAt(p)
        left == n - 7 * (k - 1)                  \* bits that this byte can hold
    IN IF b < 0 \/ left <= 0 THEN 0
       ELSE IF b >= 128 THEN (IF left <= 7 THEN 0 ELSE SLebEnd(p + 1, k + 1, n))
       ELSE IF left >= 7 THEN p + 1
       ELSE \* the unused bits of the last byte repeat the sign
            IF b < 2 ^ (left - 1) \/ b >= 128 - 2 ^ (left - 1) THEN p + 1 ELSE 0
\* the value of a signed integer that fits into 31 bits, for constant addresses
RECURSIVE SLebVal(_, _, _)
SLebVal(p, mul, acc) ==
    LET b == B[p] IN
    IF b >= 128 THEN (IF mul > 2000000 THEN -1 ELSE SLebVal(p + 1, mul * 128, acc + (b % 128) * mul))
    ELSE IF b >= 64 \/ mul > 20000000 THEN -1 ELSE acc + b * mul

RECURSIVE Slice(_, _, _)
Slice(p, n, acc) == IF n = 0 THEN acc ELSE Slice(p + 1, n - 1, Append(acc, B[p]))

(* ------------------------------ sections -------------------------------- *)
\* Every reader takes the machine at the start of an element and returns it
\* after the element, or halted.

RECURSIVE ReadTypes(_, _, _)                     \* (position, how many, so far) -> <<types, position>>
ReadTypes(p, n, acc) == IF n = 0 THEN <<acc, p>>
                        ELSE IF ByteAt(p) \notin ValTypes THEN <<acc, -1>>
                        ELSE ReadTypes(p + 1, n - 1, Append(acc, B[p]))
TypeElem(st) ==
    IF ByteAt(st.p) # 96 THEN Bad(st, "function type")
    ELSE LET a == U32(st.p + 1) IN
         IF a[1] < 0 THEN Bad(st, "function type")
         ELSE LET ps == ReadTypes(a[2], a[1], <<>>) IN
              IF ps[2] < 0 THEN Bad(st, "parameter type")
              ELSE LET b == U32(ps[2]) IN
                   IF b[1] < 0 \/ b[1] > 1 THEN Bad(st, "result type")
                   ELSE LET rs == ReadTypes(b[2], b[1], <<>>) IN
                        IF rs[2] < 0 THEN Bad(st, "result type")
                        ELSE [st EXCEPT !.p = rs[2], !.types = Append(@, [ps |-> ps[1], rs |-> rs[1]])]
Name(p) == LET a == U32(p) IN
           IF a[1] < 0 \/ a[2] + a[1] - 1 > Len(B) THEN <<<<>>, -1>> ELSE <<Slice(a[2], a[1], <<>>), a[2] + a[1]>>
ReadLimits(st, p) ==
    LET a == U32(p + 1) IN
    CASE ByteAt(p) = 0 -> IF a[1] < 0 \/ a[1] > PageSize THEN Bad(st, "limits")
                          ELSE [st EXCEPT !.p = a[2], !.mems = Append(@, a[1])]
      [] ByteAt(p) = 1 -> LET b == U32(a[2]) IN
                          IF a[1] < 0 \/ b[1] < a[1] \/ b[1] > PageSize THEN Bad(st, "limits")
                          ELSE [st EXCEPT !.p = b[2], !.mems = Append(@, a[1])]
      [] OTHER -> Bad(st, "limits")
ImportElem(st) ==
    LET a == Name(st.p) IN
    IF a[2] < 0 THEN Bad(st, "import name")
    ELSE LET b == Name(a[2]) IN
    IF b[2] < 0 THEN Bad(st, "import name")
    ELSE LET full == a[1] \o <<46>> \o b[1]
             k == ByteAt(b[2])
             i == U32(b[2] + 1)
         IN CASE k = 0 -> IF i[1] < 0 \/ i[1] >= Len(st.types) THEN Bad(st, "type of an import")
                          ELSE IF full \notin StdNames THEN Bad(st, "import of a function that the runtime doesn't have")
                          ELSE [st EXCEPT !.p = i[2], !.funs = Append(@, i[1]), !.nimp = @ + 1]
              [] k = 2 -> IF full # MemoryImport THEN Bad(st, "import of a memory that the runtime doesn't have")
                          ELSE LET r == ReadLimits(st, b[2] + 1) IN
                               IF r.mode # "halt" /\ r.mems[Len(r.mems)] > 1 THEN Bad(r, "more memory than the runtime has") ELSE r
              [] OTHER -> Bad(st, "kind of import")
FunElem(st) == LET i == U32(st.p) IN
    IF i[1] < 0 \/ i[1] >= Len(st.types) THEN Bad(st, "type of a function")
    ELSE [st EXCEPT !.p = i[2], !.funs = Append(@, i[1])]
MemElem(st) == ReadLimits(st, st.p)
GlobalElem(st) ==
    IF ByteAt(st.p) \notin ValTypes \/ ByteAt(st.p + 1) \notin {0, 1} THEN Bad(st, "global")
    ELSE LET t == B[st.p]
             op == ByteAt(st.p + 2)
             e == CASE op = 65 /\ t = I32 -> SLebEnd(st.p + 3, 1, 32)
                    [] op = 66 /\ t = I64 -> SLebEnd(st.p + 3, 1, 64)
                    [] op = 67 /\ t = F32 -> st.p + 7
                    [] op = 68 /\ t = F64 -> st.p + 11
                    [] OTHER -> 0
         IN IF e = 0 \/ ByteAt(e) # 11 THEN Bad(st, "value of a global")
            ELSE [st EXCEPT !.p = e + 1, !.globals = Append(@, <<t, B[st.p + 1]>>)]
ExportElem(st) ==
    LET a == Name(st.p) IN
    IF a[2] < 0 THEN Bad(st, "export name")
    ELSE LET k == ByteAt(a[2])
             i == U32(a[2] + 1)
             n == CASE k = 0 -> Len(st.funs) [] k = 2 -> Len(st.mems) [] k = 3 -> Len(st.globals) [] OTHER -> 0
         IN IF i[1] < 0 \/ i[1] >= n THEN Bad(st, "export")
            ELSE IF a[1] \in st.exports THEN Bad(st, "two exports of one name")
            ELSE [st EXCEPT !.p = i[2], !.exports = @ \cup {a[1]},
                            !.main = IF k = 0 /\ a[1] = MainName THEN i[1] ELSE @]
\* a data segment: memory 0, a constant offset, and bytes that fit
DataElem(st) ==
    IF ByteAt(st.p) # 0 \/ ByteAt(st.p + 1) # 65 THEN Bad(st, "data segment")
    ELSE LET e == SLebEnd(st.p + 2, 1, 32) IN
         IF e = 0 \/ ByteAt(e) # 11 THEN Bad(st, "offset of a data segment")
         ELSE LET o == SLebVal(st.p + 2, 1, 0)
                  n == U32(e + 1)
              IN IF Len(st.mems) # 1 THEN Bad(st, "data without a memory")
                 ELSE IF o < 0 \/ n[1] < 0 \/ o + n[1] > PageSize THEN Bad(st, "data outside the memory")
                 ELSE [st EXCEPT !.p = n[2] + n[1]]

Elem(id, st) == CASE id = 1 -> TypeElem(st) [] id = 2 -> ImportElem(st) [] id = 3 -> FunElem(st)
                  [] id = 5 -> MemElem(st) [] id = 6 -> GlobalElem(st) [] id = 7 -> ExportElem(st)
                  [] id = 11 -> DataElem(st)
RECURSIVE Elems(_, _, _)
Elems(id, n, st) == IF n <= 0 \/ st.mode = "halt" THEN st ELSE Elems(id, n - 1, Elem(id, st))
Vector(st, id) == LET n == U32(st.p) IN
                  IF n[1] < 0 THEN Bad(st, "vector") ELSE Elems(id, n[1], [st EXCEPT !.p = n[2]])
EndSection(st) == IF st.mode = "halt" \/ st.mode = "code" THEN st
                  ELSE IF st.p # st.send THEN Bad(st, "size of a section")
                  ELSE st
Finish(st) ==
    IF Len(st.funs) - st.nimp # st.bodies THEN Bad(st, "number of function bodies")
    ELSE IF st.main < 0 THEN Bad(st, "main isn't exported")
    ELSE IF st.types[st.funs[st.main + 1] + 1] \notin {[ps |-> <<I32, I32>>, rs |-> <<I32>>], [ps |-> <<>>, rs |-> <<I32>>]} THEN Bad(st, "type of main")
    ELSE IF Len(st.mems) # 1 THEN Bad(st, "number of memories")
    ELSE Bad(st, "ok")

(* ---------------------------- function bodies --------------------------- *)
\* locals: runs of <<index after the last, type>>
RECURSIVE LocalRuns(_, _, _, _)                  \* (position, groups, next index, so far)
LocalRuns(p, n, i, acc) ==
    IF n = 0 THEN <<acc, p>>
    ELSE LET c == U32(p) IN
         IF c[1] < 0 \/ c[1] > 50000 \/ ByteAt(c[2]) \notin ValTypes THEN <<acc, -1>>
         ELSE LocalRuns(c[2] + 1, n - 1, i + c[1], Append(acc, <<i + c[1], B[c[2]]>>))
RECURSIVE LocalType(_, _, _)
LocalType(rs, i, k) == IF k > Len(rs) THEN -1 ELSE IF i < rs[k][1] THEN rs[k][2] ELSE LocalType(rs, i, k + 1)

Frame(op, rs, h) == [op |-> op, rs |-> rs, h |-> h, unr |-> FALSE]
StartBody(st) ==
    LET z == U32(st.p) IN
    IF st.bodies >= Len(st.funs) - st.nimp THEN Bad(st, "number of function bodies")
    ELSE IF z[1] < 0 \/ z[2] + z[1] > st.send THEN Bad(st, "size of a function body")
    ELSE LET t == st.types[st.funs[st.nimp + st.bodies + 1] + 1]
             g == U32(z[2])
             ps == [i \in 1 .. Len(t.ps) |-> <<i, t.ps[i]>>]
             ls == LocalRuns(g[2], IF g[1] < 0 THEN 0 ELSE g[1], Len(t.ps), ps)
         IN IF g[1] < 0 \/ ls[2] < 0 THEN Bad(st, "locals")
            ELSE [st EXCEPT !.p = ls[2], !.mode = "code", !.bend = z[2] + z[1], !.locals = ls[1],
                            !.ctl = <<Frame("fun", t.rs, 0)>>, !.ops = <<>>]

Top(st) == st.ctl[Len(st.ctl)]
Push1(st, t) == [st EXCEPT !.ops = Append(@, t)]
PushN(st, ts) == [st EXCEPT !.ops = @ \o ts]
\* take an operand of type t off the stack
Pop(st, t) ==
    IF st.mode = "halt" THEN st
    ELSE IF Len(st.ops) = Top(st).h
    THEN IF Top(st).unr THEN st ELSE Bad(st, "operand missing")
    ELSE LET x == st.ops[Len(st.ops)] IN
         IF x # t /\ x # Poly /\ t # Poly THEN Bad(st, "type of an operand")
         ELSE [st EXCEPT !.ops = SubSeq(@, 1, Len(@) - 1)]
RECURSIVE PopN(_, _)
PopN(st, ts) == IF ts = <<>> \/ st.mode = "halt" THEN st
                ELSE PopN(Pop(st, ts[Len(ts)]), SubSeq(ts, 1, Len(ts) - 1))
\* the type on top, Poly if it isn't known
Peek(st) == IF Len(st.ops) > Top(st).h THEN st.ops[Len(st.ops)] ELSE Poly
Unreachable(st) == IF st.mode = "halt" THEN st
                   ELSE [st EXCEPT !.ops = SubSeq(@, 1, Top(st).h),
                                   !.ctl[Len(st.ctl)].unr = TRUE]
Label(st, l) == st.ctl[Len(st.ctl) - l]          \* 0 is the innermost
LabelTypes(st, l) == IF Label(st, l).op = "loop" THEN <<>> ELSE Label(st, l).rs
Apply(st, ps, rs, p) == LET x == PopN(st, ps) IN
                        IF x.mode = "halt" THEN x ELSE [PushN(x, rs) EXCEPT !.p = p]

\* numeric instructions: parameters and results
Num(op) ==
    CASE op = 69 -> <<<<I32>>, <<I32>>>>
      [] op \in 70 .. 79 -> <<<<I32, I32>>, <<I32>>>>
      [] op = 80 -> <<<<I64>>, <<I32>>>>
      [] op \in 81 .. 90 -> <<<<I64, I64>>, <<I32>>>>
      [] op \in 91 .. 96 -> <<<<F32, F32>>, <<I32>>>>
      [] op \in 97 .. 102 -> <<<<F64, F64>>, <<I32>>>>
      [] op \in 103 .. 105 -> <<<<I32>>, <<I32>>>>
      [] op \in 106 .. 120 -> <<<<I32, I32>>, <<I32>>>>
      [] op \in 121 .. 123 -> <<<<I64>>, <<I64>>>>
      [] op \in 124 .. 138 -> <<<<I64, I64>>, <<I64>>>>
      [] op \in 139 .. 145 -> <<<<F32>>, <<F32>>>>
      [] op \in 146 .. 152 -> <<<<F32, F32>>, <<F32>>>>
      [] op \in 153 .. 159 -> <<<<F64>>, <<F64>>>>
      [] op \in 160 .. 166 -> <<<<F64, F64>>, <<F64>>>>
      [] op = 167 -> <<<<I64>>, <<I32>>>>
      [] op \in {168, 169} -> <<<<F32>>, <<I32>>>>
      [] op \in {170, 171} -> <<<<F64>>, <<I32>>>>
      [] op \in {172, 173} -> <<<<I32>>, <<I64>>>>
      [] op \in {174, 175} -> <<<<F32>>, <<I64>>>>
      [] op \in {176, 177} -> <<<<F64>>, <<I64>>>>
      [] op \in {178, 179} -> <<<<I32>>, <<F32>>>>
      [] op \in {180, 181} -> <<<<I64>>, <<F32>>>>
      [] op = 182 -> <<<<F64>>, <<F32>>>>
      [] op \in {183, 184} -> <<<<I32>>, <<F64>>>>
      [] op \in {185, 186} -> <<<<I64>>, <<F64>>>>
      [] op = 187 -> <<<<F32>>, <<F64>>>>
      [] op = 188 -> <<<<F32>>, <<I32>>>>
      [] op = 189 -> <<<<F64>>, <<I64>>>>
      [] op = 190 -> <<<<I32>>, <<F32>>>>
      [] op = 191 -> <<<<I64>>, <<F64>>>>
      [] op \in {192, 193} -> <<<<I32>>, <<I32>>>>
      [] op \in 194 .. 196 -> <<<<I64>>, <<I64>>>>
\* loads and stores: type and greatest alignment
Mem(op) ==
    CASE op \in {40, 54} -> <<I32, 2>> [] op \in {41, 55} -> <<I64, 3>>
      [] op \in {42, 56} -> <<F32, 2>> [] op \in {43, 57} -> <<F64, 3>>
      [] op \in {44, 45, 58} -> <<I32, 0>> [] op \in {46, 47, 59} -> <<I32, 1>>
      [] op \in {48, 49, 60} -> <<I64, 0>> [] op \in {50, 51, 61} -> <<I64, 1>>
      [] op \in {52, 53, 62} -> <<I64, 2>>
\* saturating conversions and bulk memory, by the number after the prefix
Misc(k) == CASE k \in {0, 1} -> <<<<F32>>, <<I32>>>> [] k \in {2, 3} -> <<<<F64>>, <<I32>>>>
             [] k \in {4, 5} -> <<<<F32>>, <<I64>>>> [] k \in {6, 7} -> <<<<F64>>, <<I64>>>>
             [] k \in {10, 11} -> <<<<I32, I32, I32>>, <<>>>>

BlockResult(st) == LET b == ByteAt(st.p + 1) IN
                   IF b = 64 THEN <<TRUE, <<>>>> ELSE IF b \in ValTypes THEN <<TRUE, <<b>>>> ELSE <<FALSE, <<>>>>
RECURSIVE Targets(_, _, _)                       \* of br_table: <<list, position>>
Targets(p, n, acc) == LET i == U32(p) IN
                      IF i[1] < 0 THEN <<acc, -1>>
                      ELSE IF n = 0 THEN <<Append(acc, i[1]), i[2]>>
                      ELSE Targets(i[2], n - 1, Append(acc, i[1]))
\* the operands at the end of a block are exactly its results
EndOf(st) == LET x == PopN(st, Top(st).rs) IN
             IF x.mode = "halt" THEN x
             ELSE IF Len(x.ops) # Top(x).h THEN Bad(x, "operands left at the end of a block")
             ELSE x

Enter(st, op, x, r) == IF x.mode = "halt" THEN x
                       ELSE [x EXCEPT !.p = st.p + 2, !.ctl = Append(@, Frame(op, r, Len(x.ops)))]
Instr(st) ==
    LET op == ByteAt(st.p)
        i == U32(st.p + 1)                       \* an index after the opcode
    IN CASE st.p >= st.bend -> Bad(st, "function body without an end")
      [] op = 0 -> [Unreachable(st) EXCEPT !.p = @ + 1]
      [] op = 1 -> [st EXCEPT !.p = @ + 1]
      [] op \in {2, 3, 4} ->
           LET r == BlockResult(st) IN
           IF ~r[1] THEN Bad(st, "block type")
           ELSE Enter(st, IF op = 2 THEN "block" ELSE IF op = 3 THEN "loop" ELSE "if",
                      IF op = 4 THEN Pop(st, I32) ELSE st, r[2])
      [] op = 5 ->
           IF Top(st).op # "if" THEN Bad(st, "else without if")
           ELSE LET x == EndOf(st) IN
                IF x.mode = "halt" THEN x
                ELSE [x EXCEPT !.p = @ + 1, !.ctl[Len(x.ctl)] = Frame("else", Top(x).rs, Top(x).h)]
      [] op = 11 ->
           LET x == EndOf(st)
               f == Top(st)
           IN IF x.mode = "halt" THEN x
              ELSE IF f.op = "if" /\ f.rs # <<>> THEN Bad(st, "if with a result and without else")
              ELSE IF Len(x.ctl) > 1
              THEN [PushN(x, f.rs) EXCEPT !.p = @ + 1, !.ctl = SubSeq(@, 1, Len(@) - 1)]
              ELSE IF st.p + 1 # st.bend THEN Bad(st, "size of a function body")
              ELSE [x EXCEPT !.p = @ + 1, !.bodies = @ + 1, !.mode = "bodies"]
      [] op \in {12, 13} ->
           IF i[1] < 0 \/ i[1] >= Len(st.ctl) THEN Bad(st, "branch to no block")
           ELSE LET x == IF op = 13 THEN Pop(st, I32) ELSE st
                    y == PopN(x, LabelTypes(st, i[1]))
                IN IF y.mode = "halt" THEN y
                   ELSE IF op = 12 THEN [Unreachable(y) EXCEPT !.p = i[2]]
                   ELSE [PushN(y, LabelTypes(st, i[1])) EXCEPT !.p = i[2]]
      [] op = 14 ->
           LET ts == Targets(i[2], i[1], <<>>) IN
           IF i[1] < 0 \/ ts[2] < 0 THEN Bad(st, "branch table")
           ELSE IF \E k \in 1 .. Len(ts[1]) : ts[1][k] >= Len(st.ctl) THEN Bad(st, "branch to no block")
           ELSE LET d == LabelTypes(st, ts[1][Len(ts[1])]) IN
                IF \E k \in 1 .. Len(ts[1]) : LabelTypes(st, ts[1][k]) # d THEN Bad(st, "types of a branch table")
                ELSE LET y == PopN(Pop(st, I32), d) IN
                     IF y.mode = "halt" THEN y ELSE [Unreachable(y) EXCEPT !.p = ts[2]]
      [] op = 15 -> LET y == PopN(st, st.ctl[1].rs) IN
                    IF y.mode = "halt" THEN y ELSE [Unreachable(y) EXCEPT !.p = @ + 1]
      [] op = 16 ->
           IF i[1] < 0 \/ i[1] >= Len(st.funs) THEN Bad(st, "call of no function")
           ELSE LET t == st.types[st.funs[i[1] + 1] + 1] IN Apply(st, t.ps, t.rs, i[2])
      [] op = 26 -> [Pop(st, Poly) EXCEPT !.p = st.p + 1]
      [] op = 27 ->
           LET x == Pop(st, I32) IN
           IF x.mode = "halt" THEN x
           ELSE LET t == Peek(x)
                    y == Pop(x, Poly)
                IN IF y.mode = "halt" THEN y
                   ELSE LET u == IF t = Poly THEN Peek(y) ELSE t
                            z == Pop(y, t)
                        IN IF z.mode = "halt" THEN z ELSE [Push1(z, u) EXCEPT !.p = st.p + 1]
      [] op \in {32, 33, 34} ->
           LET t == IF i[1] < 0 THEN -1 ELSE LocalType(st.locals, i[1], 1) IN
           IF t < 0 THEN Bad(st, "no such local")
           ELSE Apply(st, IF op = 32 THEN <<>> ELSE <<t>>, IF op = 33 THEN <<>> ELSE <<t>>, i[2])
      [] op \in {35, 36} ->
           IF i[1] < 0 \/ i[1] >= Len(st.globals) THEN Bad(st, "no such global")
           ELSE LET g == st.globals[i[1] + 1] IN
                IF op = 36 /\ g[2] = 0 THEN Bad(st, "assignment to a constant global")
                ELSE Apply(st, IF op = 35 THEN <<>> ELSE <<g[1]>>, IF op = 35 THEN <<g[1]>> ELSE <<>>, i[2])
      [] op \in 40 .. 62 ->
           LET o == U32(i[2])
               t == Mem(op)
               q == ULeb(i[2], 1, 1, 0)
           IN IF i[1] < 0 \/ i[1] > t[2] THEN Bad(st, "alignment")
              ELSE IF q[2] = i[2] \/ ByteAt(q[2] - 1) > 127 THEN Bad(st, "offset")
              ELSE IF Len(st.mems) = 0 THEN Bad(st, "no memory")
              ELSE Apply(st, IF op < 54 THEN <<I32>> ELSE <<I32, t[1]>>, IF op < 54 THEN <<t[1]>> ELSE <<>>, o[2])
      [] op \in {63, 64} -> IF ByteAt(st.p + 1) # 0 \/ Len(st.mems) = 0 THEN Bad(st, "memory instruction")
                            ELSE Apply(st, IF op = 64 THEN <<I32>> ELSE <<>>, <<I32>>, st.p + 2)
      [] op \in {65, 66} ->
           LET e == SLebEnd(st.p + 1, 1, IF op = 65 THEN 32 ELSE 64) IN
           IF e = 0 THEN Bad(st, "integer constant")
           ELSE Apply(st, <<>>, IF op = 65 THEN <<I32>> ELSE <<I64>>, e)
      [] op = 67 -> Apply(st, <<>>, <<F32>>, st.p + 5)
      [] op = 68 -> Apply(st, <<>>, <<F64>>, st.p + 9)
      [] op \in 69 .. 196 -> Apply(st, Num(op)[1], Num(op)[2], st.p + 1)
      [] op = 252 ->
           IF i[1] \notin (0 .. 7) \cup {10, 11} THEN Bad(st, "unknown instruction")
           ELSE Apply(st, Misc(i[1])[1], Misc(i[1])[2], i[2] + (IF i[1] = 10 THEN 2 ELSE IF i[1] = 11 THEN 1 ELSE 0))
      [] OTHER -> Bad(st, "unknown instruction")

(* ------------------------------- the machine ---------------------------- *)
Section(st) ==
    IF st.p = Len(B) + 1 THEN Finish(st)
    ELSE LET id == B[st.p]
             z == U32(st.p + 1)
             x == [st EXCEPT !.p = z[2], !.send = z[2] + z[1], !.last = IF id = 0 THEN @ ELSE id]
         IN IF z[1] < 0 \/ z[2] + z[1] - 1 > Len(B) THEN Bad(st, "size of a section")
            ELSE IF id = 0 THEN [x EXCEPT !.p = x.send]
            ELSE IF id <= st.last THEN Bad(st, "order of sections")
            ELSE CASE id \in {1, 2, 3, 5, 6, 7, 11} -> EndSection(Vector(x, id))
                   [] id = 8 -> LET f == U32(x.p) IN
                                IF f[1] < 0 \/ f[1] >= Len(st.funs) \/ st.types[st.funs[f[1] + 1] + 1] # [ps |-> <<>>, rs |-> <<>>]
                                THEN Bad(st, "start function") ELSE EndSection([x EXCEPT !.p = f[2]])
                   [] id \in {4, 9} -> IF ByteAt(x.p) # 0 THEN Bad(st, "tables aren't known")
                                       ELSE EndSection([x EXCEPT !.p = @ + 1])
                   [] id = 10 -> LET n == U32(x.p) IN
                                 IF n[1] < 0 THEN Bad(st, "vector")
                                 ELSE [x EXCEPT !.p = n[2], !.todo = n[1], !.mode = "bodies"]
                   [] OTHER -> Bad(st, "kind of section")
Step(st) ==
    CASE st.mode = "sec" -> Section(st)
      [] st.mode = "bodies" -> IF st.bodies < st.todo THEN StartBody(st) ELSE EndSection([st EXCEPT !.mode = "sec"])
      [] st.mode = "code" -> Instr(st)
RECURSIVE Steps(_, _)
Steps(st, n) == IF n = 0 \/ st.mode = "halt" THEN st ELSE Steps(Step(st), n - 1)

Magic == <<0, 97, 115, 109, 1, 0, 0, 0>>
Start(k) == [mode |-> IF Len(Modules[k]) >= 8 /\ SubSeq(Modules[k], 1, 8) = Magic THEN "sec" ELSE "halt",
             why |-> "header", p |-> 9, last |-> 0, send |-> 0, bend |-> 0, todo |-> 0, bodies |-> 0,
             types |-> <<>>, funs |-> <<>>, nimp |-> 0, mems |-> <<>>, globals |-> <<>>, exports |-> {}, main |-> -1,
             locals |-> <<>>, ctl |-> <<>>, ops |-> <<>>]
Init == m \in 1 .. Len(Modules) /\ s = Start(m)
Run == s.mode \notin {"halt", "done"} /\ s' = Steps(s, Batch) /\ UNCHANGED m
Report == /\ s.mode = "halt"
          /\ PrintT(<<"WASM", m, s.why, s.p>>)
          /\ s' = [s EXCEPT !.mode = "done"]
          /\ UNCHANGED m
Next == Run \/ Report
Spec == Init /\ [][Next]_vars
\* the position never passes the end, and blocks are nested
Sane == /\ s.mode \in {"halt", "done"} \/ s.p <= Len(B) + 10
        /\ s.mode = "code" => \A i \in 1 .. Len(s.ctl) - 1 : s.ctl[i].h <= s.ctl[i + 1].h
=============================================================================
