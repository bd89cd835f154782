-------------------------------- MODULE Syntax --------------------------------
(***************************************************************************)
(* The grammar of C: a push-down machine which reads the tokens of a       *)
(* translation unit, one per step, with what is expected next on a stack.  *)
(*                                                                         *)
(* Items[item] is a sequence of tokens [k, s]: k is one of "id", "kw",     *)
(* "p" (punctuator), "int", "flt", "chr", "str", "bad" and "eof", and s    *)
(* the text.  The machine ends with "ok", with "error", or with "either"   *)
(* where the compiler is known not to support what C has (or where C and   *)
(* its dialects differ), so that it may go both ways.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Items == JsonDeserialize(IOEnv.SYNTAX_ITEMS)
VARIABLES item, pos, stack, m
vars == <<item, pos, stack, m>>
\* m: td, the typedef names per scope; tds, this declaration is a typedef; sc, it has a storage class; bag, the type words so far;
\* fn, the declarator is one of a function

TypeWords == {"void", "char", "short", "int", "long", "float", "double", "signed", "unsigned"}
Storage == {"typedef", "extern", "static", "auto", "register"}
Quals == {"const", "volatile"}
AsgOps == {"=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=", "|="}
BinOps == {"*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"}
UnOps == {"&", "*", "+", "-", "~", "!"}
\* what the compiler doesn't know
Unknown == {"inline", "restrict", "_Bool", "_Complex", "_Imaginary", "_Alignas", "_Alignof", "_Atomic", "_Generic",
            "_Noreturn", "_Static_assert", "_Thread_local"}
Terminals == {"(", ")", "[", "]", "{", "}", ";", ":", ",", "=", "while", "..."}

\* the type words that can be put together
CountOf(b, w) == Len(SelectSeq(b, LAMBDA x : x = w))
BagOk(b) ==
    LET C(w) == CountOf(b, w)
        Only(ws) == \A i \in DOMAIN b : b[i] \in ws
    IN /\ \A w \in TypeWords : C(w) <= 1
       /\ C("signed") + C("unsigned") <= 1
       /\ C("void") = 1 => Len(b) = 1
       /\ C("float") = 1 => Len(b) = 1
       /\ C("char") = 1 => Only({"char", "signed", "unsigned"})
       /\ C("double") = 1 => Only({"double", "long"})
       /\ C("short") = 1 => Only({"short", "int", "signed", "unsigned"})
       /\ C("long") = 1 => Only({"long", "int", "signed", "unsigned", "double"})
LongLong(b) == CountOf(b, "long") = 2 \/ (CountOf(b, "long") = 1 /\ CountOf(b, "double") = 1)

IsTd(mm, t) == t.k = "id" /\ \E i \in DOMAIN mm.td : t.s \in mm.td[i]
TypeStart(mm, t) == \/ t.k = "kw" /\ t.s \in TypeWords \cup Quals \cup {"struct", "union", "enum"}
                    \/ IsTd(mm, t)
DeclStart(mm, t) == TypeStart(mm, t) \/ (t.k = "kw" /\ t.s \in Storage)

(* Act: what is done when sym is expected, t is the next token and n the one after it:
   "go": sym stands for these symbols; "eat": the token is the first part of sym, these symbols are the rest *)
Go(ss) == [a |-> "go", s |-> ss]
Eat(ss) == [a |-> "eat", s |-> ss]
Error == [a |-> "error", s |-> <<>>]
Either == [a |-> "either", s |-> <<>>]
Const(t) == t.k \in {"int", "flt", "chr"}

\* specifiers: DS with storage classes, SQ without; 0 nothing yet, 1 type words so far, 2 the type is complete
Specs(sym, mm, t) ==
    LET ds == sym \in {"DS0", "DS1", "DS2"}
        fresh == sym \in {"DS0", "SQ0"}
        words == fresh \/ sym \in {"DS1", "SQ1"}
        One == IF ds THEN "DS1" ELSE "SQ1"
        Two == IF ds THEN "DS2" ELSE "SQ2"
        b == Append(IF fresh THEN <<>> ELSE mm.bag, t.s)
    IN IF t.k = "kw" /\ t.s \in Storage THEN IF ~ds THEN Either ELSE IF mm.sc THEN Error ELSE Eat(<<sym>>)
       ELSE IF t.k = "kw" /\ t.s \in Quals THEN Eat(<<sym>>)
       ELSE IF t.k = "kw" /\ t.s \in TypeWords
            THEN IF ~words THEN Error ELSE IF LongLong(b) THEN Either ELSE IF BagOk(b) THEN Eat(<<One>>) ELSE Error
       ELSE IF t.k = "kw" /\ t.s \in {"struct", "union"} THEN IF fresh THEN Eat(<<"StructRest", Two>>) ELSE Error
       ELSE IF t.k = "kw" /\ t.s = "enum" THEN IF fresh THEN Eat(<<"EnumRest", Two>>) ELSE Error
       ELSE IF IsTd(mm, t) THEN IF fresh THEN Eat(<<Two>>) ELSE Either      \* else it would be declared anew
       ELSE IF fresh THEN IF ds THEN Either ELSE Error                      \* no type: int
       ELSE Go(<<>>)

\* declarators: D of declarations, M of members, P of parameters (perhaps without a name), A of type names
Suf(f) == CASE f = "D" -> "DSuf" [] f = "M" -> "MSuf" [] f = "P" -> "PSuf" [] OTHER -> "ASuf"
Dcl(f) == CASE f = "D" -> "Dcl" [] f = "M" -> "MDcl" [] f = "P" -> "PDcl" [] OTHER -> "ADcl"
Declarator(f, mm, t, n) ==
    IF t.s = "*" THEN Eat(<<"Ptr", Dcl(f)>>)
    ELSE IF t.k = "id"
         THEN IF f = "A" THEN Error ELSE IF IsTd(mm, t) THEN Either ELSE Eat(<<Suf(f)>>)
    ELSE IF t.s = "("
         THEN IF f \in {"P", "A"} /\ (n.s = ")" \/ DeclStart(mm, n)) THEN Go(<<Suf(f)>>)
              ELSE Eat(<<Dcl(f), ")", Suf(f)>>)
    ELSE IF f \in {"P", "A"} THEN Go(<<Suf(f)>>) ELSE Error
Suffix(sym, mm, t, n) ==
    IF t.s = "[" THEN IF n.s = "]" THEN Eat(<<"]", sym>>) ELSE IF n.s \in {"*", "static", "const"} THEN Either ELSE Eat(<<"Asg", "]", sym>>)
    ELSE IF t.s = "(" THEN IF n.s = ")" THEN Eat(<<")", sym>>) ELSE IF n.k = "id" /\ ~IsTd(mm, n) THEN Either ELSE Eat(<<"Params", ")", sym>>)
    ELSE Go(<<>>)

BinTailAct(t) == IF t.k = "p" /\ t.s \in BinOps THEN Eat(<<"Cast", "BinTail">>) ELSE Go(<<>>)
Act(sym, mm, t, n) ==
    IF sym \in Terminals THEN IF t.s = sym /\ t.k \in {"p", "kw"} THEN Eat(<<>>) ELSE Error
    ELSE CASE sym = "Unit" -> IF t.k = "eof" THEN Go(<<>>) ELSE IF t.s = ";" THEN Either ELSE Go(<<"Ext", "Unit">>)
      (* declarations *)
      [] sym = "Ext" -> IF t.k \in {"kw", "id"} THEN Go(<<"DS0", "ExtDcl">>) ELSE IF t.s \in {"*", "("} THEN Either ELSE Error
      [] sym = "ExtDcl" -> IF t.s = ";" THEN Eat(<<>>) ELSE Go(<<"Dcl", "ExtRest">>)
      [] sym = "ExtRest" -> IF t.s = "{" THEN IF mm.fn /\ ~mm.tds THEN Go(<<"Block">>) ELSE Error
                            ELSE IF mm.fn /\ DeclStart(mm, t) THEN Either
                            ELSE Go(<<"InitOpt", "DclList">>)
      [] sym = "Decl" -> Go(<<"DS0", "DeclDcl">>)
      [] sym = "DeclDcl" -> IF t.s = ";" THEN Eat(<<>>) ELSE Go(<<"Dcl", "InitOpt", "DclList">>)
      [] sym = "DclList" -> IF t.s = "," THEN Eat(<<"Dcl", "InitOpt", "DclList">>) ELSE IF t.s = ";" THEN Eat(<<>>) ELSE Error
      [] sym = "InitOpt" -> IF t.s = "=" THEN IF mm.fn \/ mm.tds THEN Error ELSE Eat(<<"Init">>) ELSE Go(<<>>)
      [] sym = "Init" -> IF t.s = "{" THEN IF n.s = "}" THEN Either ELSE Eat(<<"InitList">>) ELSE Go(<<"Asg">>)
      [] sym = "InitList" -> IF t.s \in {".", "["} THEN Either ELSE Go(<<"Init", "InitMore">>)
      [] sym = "InitMore" -> IF t.s = "}" THEN Eat(<<>>)
                             ELSE IF t.s = "," THEN IF n.s = "}" THEN Eat(<<"}">>) ELSE Eat(<<"InitList">>)
                             ELSE Error
      [] sym \in {"DS0", "DS1", "DS2", "SQ0", "SQ1", "SQ2"} -> Specs(sym, mm, t)
      [] sym = "StructRest" -> IF t.k = "id" THEN IF IsTd(mm, t) THEN Either ELSE Eat(<<"StructBody">>)
                               ELSE IF t.s = "{" THEN Go(<<"StructBody">>) ELSE Error
      [] sym = "StructBody" -> IF t.s # "{" THEN Go(<<>>) ELSE IF n.s \in {"}", ";"} THEN Either ELSE Eat(<<"Member", "Members">>)
      [] sym = "Members" -> IF t.s = "}" THEN Eat(<<>>) ELSE IF t.s = ";" THEN Either ELSE Go(<<"Member", "Members">>)
      [] sym = "Member" -> Go(<<"SQ0", "MemberDcl">>)
      [] sym = "MemberDcl" -> IF t.s \in {";", ":"} THEN Either ELSE Go(<<"MDcl", "MemberMore">>)
      [] sym = "MemberMore" -> IF t.s = ":" THEN Either ELSE IF t.s = "," THEN Eat(<<"MDcl", "MemberMore">>)
                               ELSE IF t.s = ";" THEN Eat(<<>>) ELSE Error
      [] sym = "EnumRest" -> IF t.k = "id" THEN IF IsTd(mm, t) THEN Either ELSE Eat(<<"EnumBody">>)
                             ELSE IF t.s = "{" THEN Go(<<"EnumBody">>) ELSE Error
      [] sym = "EnumBody" -> IF t.s = "{" THEN Eat(<<"Enumerator", "EnumMore">>) ELSE Go(<<>>)
      [] sym = "Enumerator" -> IF t.k = "id" THEN IF IsTd(mm, t) THEN Either ELSE Eat(<<"EnumValue">>) ELSE Error
      [] sym = "EnumValue" -> IF t.s = "=" THEN Eat(<<"CondE">>) ELSE Go(<<>>)
      [] sym = "EnumMore" -> IF t.s = "}" THEN Eat(<<>>)
                             ELSE IF t.s = "," THEN IF n.s = "}" THEN Either ELSE Eat(<<"Enumerator", "EnumMore">>)
                             ELSE Error
      [] sym = "Dcl" -> Declarator("D", mm, t, n)
      [] sym = "MDcl" -> Declarator("M", mm, t, n)
      [] sym = "PDcl" -> Declarator("P", mm, t, n)
      [] sym = "ADcl" -> Declarator("A", mm, t, n)
      [] sym = "Ptr" -> IF t.s \in Quals THEN Either ELSE Go(<<>>)
      [] sym \in {"DSuf", "MSuf", "PSuf", "ASuf"} -> Suffix(sym, mm, t, n)
      [] sym = "Params" -> IF t.s = "..." THEN Either ELSE Go(<<"SQ0", "PDcl", "ParamMore">>)
      [] sym = "ParamMore" -> IF t.s = "," THEN IF n.s = "..." THEN Eat(<<"...">>) ELSE IF n.k = "id" /\ ~IsTd(mm, n) THEN Error ELSE Eat(<<"SQ0", "PDcl", "ParamMore">>)
                              ELSE Go(<<>>)
      [] sym = "TypeName" -> Go(<<"SQ0", "ADcl">>)
      (* statements *)
      [] sym = "Block" -> IF t.s = "{" THEN Eat(<<"BlockItems">>) ELSE Error
      [] sym = "BlockItems" -> IF t.s = "}" THEN Eat(<<>>)
                               ELSE IF DeclStart(mm, t) THEN IF n.s = ":" THEN Either ELSE Go(<<"Decl", "BlockItems">>)
                               ELSE IF t.k = "eof" THEN Error ELSE Go(<<"Stmt", "BlockItems">>)
      [] sym = "LStmt" -> IF DeclStart(mm, t) THEN Either ELSE Go(<<"Stmt">>)      \* after a label
      [] sym = "Stmt" ->
           IF t.k = "p" THEN IF t.s = "{" THEN Go(<<"Block">>) ELSE IF t.s = ";" THEN Eat(<<>>) ELSE Go(<<"Expr", ";">>)
           ELSE IF t.k = "id" THEN IF n.s = ":" THEN IF IsTd(mm, t) THEN Either ELSE Eat(<<":", "LStmt">>) ELSE Go(<<"Expr", ";">>)
           ELSE IF t.k # "kw" THEN Go(<<"Expr", ";">>)
           ELSE CASE t.s = "if" -> Eat(<<"(", "Expr", ")", "Stmt", "ElseOpt">>)
                  [] t.s \in {"while", "switch"} -> Eat(<<"(", "Expr", ")", "Stmt">>)
                  [] t.s = "do" -> Eat(<<"Stmt", "while", "(", "Expr", ")", ";">>)
                  [] t.s = "for" -> Eat(<<"(", "ForInit", "OptExpr", ";", "ForStep", ")", "Stmt">>)
                  [] t.s = "case" -> Eat(<<"CondE", ":", "LStmt">>)
                  [] t.s = "default" -> Eat(<<":", "LStmt">>)
                  [] t.s = "goto" -> IF n.k = "id" THEN Eat(<<"Label", ";">>) ELSE IF n.s = "*" THEN Either ELSE Error
                  [] t.s \in {"break", "continue"} -> Eat(<<";">>)
                  [] t.s = "return" -> Eat(<<"OptExpr", ";">>)
                  [] OTHER -> Go(<<"Expr", ";">>)
      [] sym = "ElseOpt" -> IF t.s = "else" /\ t.k = "kw" THEN Eat(<<"Stmt">>) ELSE Go(<<>>)
      [] sym = "ForInit" -> IF DeclStart(mm, t) THEN Go(<<"Decl">>) ELSE Go(<<"OptExpr", ";">>)
      [] sym = "OptExpr" -> IF t.s = ";" THEN Go(<<>>) ELSE Go(<<"Expr">>)
      [] sym = "ForStep" -> IF t.s = ")" THEN Go(<<>>) ELSE Go(<<"Expr">>)
      [] sym = "Label" -> IF t.k = "id" THEN Eat(<<>>) ELSE Error
      (* expressions *)
      [] sym = "Expr" -> Go(<<"Asg", "ExprMore">>)
      [] sym = "ExprMore" -> IF t.s = "," /\ t.k = "p" THEN Eat(<<"Asg", "ExprMore">>) ELSE Go(<<>>)
      [] sym = "Asg" -> IF t.s = "(" /\ TypeStart(mm, n) THEN Go(<<"Cast", "BinTail", "CondTail">>) ELSE Go(<<"Unary", "AsgTail">>)
      [] sym = "AsgTail" -> IF t.k = "p" /\ t.s \in AsgOps THEN Eat(<<"Asg">>) ELSE Go(<<"BinTail", "CondTail">>)
      [] sym = "CondE" -> Go(<<"Cast", "BinTail", "CondTail">>)
      [] sym = "CondTail" -> IF t.s = "?" /\ t.k = "p" THEN Eat(<<"Expr", ":", "CondE">>) ELSE Go(<<>>)
      [] sym = "BinTail" -> BinTailAct(t)
      [] sym = "Cast" -> IF t.s = "(" /\ TypeStart(mm, n) THEN Eat(<<"TypeName", ")", "AfterType", "Cast">>) ELSE Go(<<"Unary">>)
      [] sym = "AfterType" -> IF t.s = "{" THEN Either ELSE Go(<<>>)
      [] sym = "Unary" ->
           IF t.k = "p" /\ t.s \in {"++", "--"} THEN Eat(<<"Unary">>)
           ELSE IF t.k = "p" /\ t.s \in UnOps THEN Eat(<<"Cast">>)
           ELSE IF t.k = "kw" /\ t.s = "sizeof" THEN Eat(<<"SizeofRest">>)
           ELSE Go(<<"Primary", "Post">>)
      [] sym = "SizeofRest" -> IF t.s = "(" /\ TypeStart(mm, n) THEN Eat(<<"TypeName", ")", "AfterType">>) ELSE Go(<<"Unary">>)
      [] sym = "Primary" ->
           IF t.k = "id" THEN IF IsTd(mm, t) THEN Error ELSE Eat(<<>>)
           ELSE IF Const(t) THEN Eat(<<>>)
           ELSE IF t.k = "str" THEN IF n.k = "str" THEN Either ELSE Eat(<<>>)
           ELSE IF t.s = "(" /\ t.k = "p" THEN IF n.s = "{" THEN Either ELSE Eat(<<"Expr", ")">>)
           ELSE Error
      [] sym = "Post" ->
           IF t.k # "p" THEN Go(<<>>)
           ELSE IF t.s = "[" THEN Eat(<<"Expr", "]", "Post">>)
           ELSE IF t.s = "(" THEN IF n.s = ")" THEN Eat(<<")", "Post">>) ELSE Eat(<<"Asg", "ArgMore", ")", "Post">>)
           ELSE IF t.s \in {".", "->"} THEN Eat(<<"MemberName", "Post">>)
           ELSE IF t.s \in {"++", "--"} THEN Eat(<<"Post">>) ELSE Go(<<>>)
      [] sym = "ArgMore" -> IF t.s = "," THEN Eat(<<"Asg", "ArgMore">>) ELSE Go(<<>>)
      [] sym = "MemberName" -> IF t.k # "id" THEN Error ELSE IF IsTd(mm, t) THEN Either ELSE Eat(<<>>)

\* what the machine remembers
Remember(mm, sym, t, eat) ==
    LET m1 == IF sym \in {"Ext", "Decl"} THEN [mm EXCEPT !.tds = FALSE, !.fn = FALSE, !.sc = FALSE] ELSE mm
        m2 == IF eat /\ t.k = "kw" /\ t.s \in Storage THEN [m1 EXCEPT !.tds = @ \/ t.s = "typedef", !.sc = TRUE] ELSE m1
        m3 == IF eat /\ t.k = "kw" /\ t.s \in TypeWords
              THEN [m2 EXCEPT !.bag = Append(IF sym \in {"DS0", "SQ0"} THEN <<>> ELSE @, t.s)] ELSE m2
        m4 == IF eat /\ sym = "Dcl" /\ t.k = "id" /\ mm.tds THEN [m3 EXCEPT !.td[Len(mm.td)] = @ \cup {t.s}] ELSE m3
        m5 == IF eat /\ sym = "DclList" THEN [m4 EXCEPT !.fn = FALSE]
              ELSE IF eat /\ sym = "DSuf" /\ t.s = "(" THEN [m4 EXCEPT !.fn = TRUE] ELSE m4
        m6 == IF eat /\ sym = "Block" THEN [m5 EXCEPT !.td = Append(@, {})] ELSE m5
    IN IF eat /\ sym = "BlockItems" THEN [m6 EXCEPT !.td = SubSeq(@, 1, Len(@) - 1)] ELSE m6

Init == /\ item \in 1 .. Len(Items)
        /\ pos = 1 /\ stack = <<"Unit">>
        /\ m = [td |-> <<{}>>, tds |-> FALSE, bag |-> <<>>, fn |-> FALSE, sc |-> FALSE]
Tok(i) == IF i <= Len(Items[item]) THEN Items[item][i] ELSE [k |-> "eof", s |-> ""]
End(v) == /\ PrintT(<<"SYNTAX", item, v, pos>>)
          /\ stack' = <<>> /\ pos' = Len(Items[item]) + 2 /\ UNCHANGED <<item, m>>
\* what the next token is in what is expected: the rules up to the one that takes it
RECURSIVE Run(_, _, _, _)
Run(st, mm, t, n) ==
    IF st = <<>> THEN [a |-> "done", s |-> st, m |-> mm]
    ELSE LET a == Act(Head(st), mm, t, n)
             m1 == Remember(mm, Head(st), t, a.a = "eat")
         IN IF a.a = "go" THEN Run(a.s \o Tail(st), m1, t, n) ELSE [a |-> a.a, s |-> a.s \o Tail(st), m |-> m1]
Read == /\ stack # <<>>
        /\ LET t == Tok(pos)
               r == Run(stack, m, t, Tok(pos + 1))
           IN IF t.k = "bad" THEN End("error")
              ELSE IF t.k = "kw" /\ t.s \in Unknown THEN End("either")
              ELSE IF r.a \in {"error", "either"} THEN End(r.a)
              ELSE /\ stack' = r.s /\ m' = r.m /\ UNCHANGED item
                   /\ pos' = IF r.a = "eat" THEN pos + 1 ELSE pos
Accept == /\ stack = <<>> /\ pos = Len(Items[item]) + 1 /\ End("ok")
Next == Read \/ Accept

\* every scope that is entered is left; a program that is accepted is read to its end
Scopes == /\ Len(m.td) >= 1
          /\ stack = <<"Unit">> => Len(m.td) = 1
          /\ (stack = <<>> /\ pos <= Len(Items[item]) + 1) => pos = Len(Items[item]) + 1
=============================================================================
