------------------------------ MODULE CheckCli ------------------------------
(* elm-parser-check: reads a file and prints the value and operator names    *)
(* its imports expose by name, or a parse error.                             *)
EXTENDS ElmFile

VARIABLES told      \* what was printed: <<>> so far, <<"error">>, or <<"list", names>>
kvars == <<fvars, told>>

(* Names among the entries of an exposing list: the entries that are values, *)
(* not types, and not what is inside a type's entry.                         *)
RECURSIVE Values(_, _), Imported(_, _)
Values(es, k) == IF k > Len(es) THEN <<>>
                 ELSE (IF es[k].k = "FunctionExport" THEN <<es[k].c[1].s>> ELSE <<>>) \o Values(es, k + 1)
Exposed(st) ==
  IF st.k # "ImportStatement" THEN <<>>
  ELSE LET x == st.c[3] IN
       IF x.k = "None" THEN <<>>
       ELSE IF x.c[1].k = "SubsetExport" THEN Values(x.c[1].c[1].c, 1) ELSE <<>>
Imported(ss, k) == IF k > Len(ss) THEN <<>> ELSE Exposed(ss[k]) \o Imported(ss, k + 1)

CheckInit == FileInit /\ told = <<>>
ReadOn == told = <<>> /\ FileNext /\ UNCHANGED told
Tell ==
  /\ told = <<>> /\ phase \in {"accept", "reject"}
  /\ told' = IF phase = "accept" THEN <<"list", Imported(out, 1)>> ELSE <<"error">>
  /\ UNCHANGED fvars
CheckNext == ReadOn \/ Tell

(* Statement by statement: reading one more statement that is not an import  *)
(* adds no name, an import adds its own after those before.                  *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
NamesGrow == [][LET a == Imported(out, 1)  b == Imported(out', 1) IN
                /\ Prefix(a, b)
                /\ out' # out /\ out'[Len(out')].k # "ImportStatement" => a = b]_kvars
=============================================================================
