--------------------------------- MODULE Lex ----------------------------------
(***************************************************************************)
(* How the text of an expression is read: line splicing, white space and   *)
(* comments, tokens (the longest possible ones), the values of constants,  *)
(* and the grouping of operators.                                          *)
(*                                                                         *)
(* The state machine reads one token per step, and then parses.  The       *)
(* result is the expression in postfix form, a sequence of                 *)
(* [o |-> kind, b |-> operator, value or name].  Items[item] has the text  *)
(* and the postfix form of the node table which the harness made of it for *)
(* CSem: they have to be the same, so that the tables which the compiled   *)
(* programs are compared with are those of this specification.             *)
(***************************************************************************)
EXTENDS Tokens, TLC, Json, IOUtils

Items == JsonDeserialize(IOEnv.LEX_ITEMS)        \* [text |-> bytes, tree |-> postfix form]

VARIABLES item, text, pos, toks, st
vars == <<item, text, pos, toks, st>>

(* ---------------------------- the state machine ------------------------- *)
Init == /\ item \in 1 .. Len(Items)
        /\ text = Spliced(Items[item].text, 1)
        /\ pos = 1 /\ toks = <<>> /\ st = "lex"
Lex == /\ st = "lex"
       /\ LET i == Skip(text, pos) IN
          IF i > Len(text) THEN st' = "parse" /\ UNCHANGED <<pos, toks>>
          ELSE LET t == NextTok(text, i) IN pos' = t.n /\ toks' = Append(toks, t) /\ UNCHANGED st
       /\ UNCHANGED <<item, text>>
Parse == /\ st = "parse"
         /\ LET r == Comma(toks, 1) IN
            PrintT(<<"LEX", item, IF r.i # Len(toks) + 1 THEN "rest" ELSE IF r.e = Items[item].tree THEN "ok" ELSE "differs">>)
         /\ st' = "done" /\ UNCHANGED <<item, text, pos, toks>>
Next == Lex \/ Parse
\* each token is at least one character, and nothing is read twice
Progress == Len(toks) < pos
=============================================================================
