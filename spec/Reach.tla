-------------------------------- MODULE Reach ---------------------------------
(***************************************************************************)
(* Unreachable-procedure elimination as a marking process.                 *)
(*                                                                         *)
(* From the syntax nodes of a program, main is marked and the functions    *)
(* that a marked one calls are marked, until nothing changes.  A module    *)
(* that was compiled with the elimination has to contain exactly the       *)
(* marked functions; one that was compiled without it, all of them.        *)
(* A call that is only the operand of sizeof may count or not.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Inputs

VARIABLES run, marked, todo, st
vars == <<run, marked, todo, st>>

Prog == Progs[Runs[run].p]
Nodes == Prog.nodes
Defs == {x \in {Prog.top[i] : i \in 1 .. Len(Prog.top)} : Nodes[x].k = "fdef"}
DefOf(name) == {x \in Defs : Nodes[x].n = name}
Within(x) == {y \in x .. Nodes[x].z : TRUE}
InSizeof(x, y) == \E s \in Within(x) : Nodes[s].k = "sze" /\ s < y /\ y <= Nodes[s].z
Calls(x, sz) == UNION {DefOf(Nodes[y].f) : y \in {y \in Within(x) : /\ Nodes[y].k = "call"
                                                                    /\ sz \/ ~InSizeof(x, y)}}
\* sz: do the operands of sizeof count?
Init == /\ run \in 1 .. Len(Runs)
        /\ marked = [sz \in BOOLEAN |-> DefOf("main")]
        /\ todo = [sz \in BOOLEAN |-> DefOf("main")]
        /\ st = "run"
Mark == /\ st = "run"
        /\ \E sz \in BOOLEAN : todo[sz] # {}
        /\ LET sz == CHOOSE s \in BOOLEAN : todo[s] # {}
               x == CHOOSE x \in todo[sz] : TRUE
               new == Calls(x, sz) \ marked[sz]
           IN /\ marked' = [marked EXCEPT ![sz] = @ \cup new]
              /\ todo' = [todo EXCEPT ![sz] = (@ \ {x}) \cup new]
        /\ UNCHANGED <<run, st>>
Names(s) == {Nodes[x].n : x \in s}
Present == {Runs[run].present[i] : i \in 1 .. Len(Runs[run].present)}
Verdict == CASE ~Runs[run].elim -> IF Present = Names(Defs) THEN "ok" ELSE "a function is missing without the elimination"
             [] \E f \in Names(marked[FALSE]) : f \notin Present -> "a function that main may reach is missing"
             [] \E f \in Present : f \notin Names(marked[TRUE]) -> "a function that main can't reach is left"
             [] OTHER -> "ok"
Report == /\ st = "run" /\ todo[TRUE] = {} /\ todo[FALSE] = {}
          /\ PrintT(<<"REACH", run, Verdict>>)
          /\ st' = "done"
          /\ UNCHANGED <<run, marked, todo>>
Next == Mark \/ Report
Spec == Init /\ [][Next]_vars
\* what counts with sizeof includes what counts without
Monotone == st = "done" => marked[FALSE] \subseteq marked[TRUE]
=============================================================================
