----------------------------- MODULE DumpModel -----------------------------
(* DumpCli over every small directory: all orders of the walk, both modes.   *)
EXTENDS DumpCli
CONSTANT MaxFiles

Good   == <<"x", " ", "=", " ", "1", "\n">>
Good2  == <<"-", "-", "c", "\n", "\n", "i", "m", "p", "o", "r", "t", " ", "A", "\n">>
Bad    == <<"x", " ", "=", "\n">>
Bad2   == <<"x", " ", "=", " ", "1", "\n", ")">>
Name(s) == <<s>> \o tElm
K(n, d, r, t) == [name |-> n, dir |-> d, readable |-> r, src |-> t, cps |-> [k \in 1..Len(t) |-> 0]]
Kinds == {K(Name("a"), FALSE, TRUE, Good), K(Name("b"), FALSE, TRUE, Good2),
          K(Name("c"), FALSE, TRUE, Bad), K(Name("d"), FALSE, TRUE, Bad2), K(Name("e"), FALSE, TRUE, <<>>),
          K(Name("u"), FALSE, FALSE, <<>>),
          K(Name("d"), TRUE, FALSE, <<>>), K(<<"R", "E", "A", "D", "M", "E">>, FALSE, TRUE, Good),
          K(<<"a", ".", "E", "L", "M">>, FALSE, TRUE, Good), K(tElm, FALSE, TRUE, Good),
          K(<<"a", ".", "e", "l", "m", "x">>, FALSE, TRUE, Good)}
Parses(f) == f.readable /\ f.src \in {Good, Good2}

DModelInit ==
  /\ cmd \in [quiet : BOOLEAN, dir : {TRUE}, files : UNION {[1..n -> Kinds] : n \in 0..MaxFiles}]
             \cup [quiet : BOOLEAN, dir : {FALSE}, files : {<<f>> : f \in {g \in Kinds : ~ g.dir}}]
  /\ CliInit
DModelSpec == DModelInit /\ [][CliNext]_dcvars /\ WF_dcvars(CliNext)

(* What is reported of a file is what reading it alone gives, whatever else  *)
(* is in the directory.                                                      *)
AsAlone == \A k \in 1..Len(said) :
  LET f == cmd.files[said[k].f] IN
  /\ said[k].what = (IF cmd.quiet THEN IF Parses(f) THEN "ok" ELSE "fail"
                     ELSE IF Parses(f) THEN "tree" ELSE "error")
  /\ said[k].what = "tree" => said[k].tree # <<>>
Ends == <> Finished
=============================================================================
