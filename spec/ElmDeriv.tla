------------------------------ MODULE ElmDeriv ------------------------------
(* The other half of the specification: how a file comes to be WRITTEN.  The *)
(* writer expands one construct at a time, leftmost first, and chooses       *)
(* between its forms and between the layouts the dialect allows, building    *)
(* the text and, independently of any reading of it, the tree it means.      *)
(* The finished text is handed to the reader (ElmFile), and the model        *)
(* checker decides that the reader gets back exactly what was written.       *)
(*                                                                           *)
(* Every form or layout other than the plainest costs one unit of `fuel`, so *)
(* exhaustive search with fuel K visits every file that combines up to K     *)
(* features, and simulation with large fuel draws big files.                 *)
EXTENDS ElmFile, FiniteSets, Json, CSV, IOUtils

CONSTANTS Groups,     \* which forms and layouts may be chosen
          Fuel,       \* how many
          Rotate,     \* where in the pools of names and literals to start (a set)
          Random      \* TRUE: draw (for -simulate), FALSE: every choice

VARIABLES work,       \* constructs still to be written
          toks,       \* text so far
          vals,       \* trees so far (a stack)
          fuel,
          reg,        \* the indentation left by the last layout
          cnt         \* how many names and literals were used
gvars == <<work, toks, vals, fuel, reg, cnt>>
dvars == <<fvars, gvars>>

REG == 0 - 7          \* an indentation that is the one the last layout leaves

(* ------------------------------------------------------------------ items *)
It(n, i, b) == [n |-> n, s |-> "", i |-> i, b |-> b, m |-> 0]
I(n, i)     == It(n, i, 0 - 1)
Z(n)        == It(n, 0, 0 - 1)
T(s)        == [n |-> "Txt", s |-> s, i |-> 0, b |-> 0, m |-> 0]
R(k, m)     == [n |-> "Red", s |-> k, i |-> 0, b |-> 0, m |-> m]   \* m trees into one node k
Mark        == Z("Mark")
RM          == Z("RedMark")                   \* everything since Mark into a list
Lay(rel, i) == [n |-> "Lay", s |-> rel, i |-> i, b |-> 0, m |-> 0]
Blk(i, b)   == It("BlockLay", i, b)
MarkN       == Nd("MARK", "", <<>>)

RECURSIVE Sp_(_)
Sp_(n) == IF n <= 0 THEN "" ELSE " " \o Sp_(n - 1)

(* -------------------------------------------------------------- the pools *)
LoPool == <<"a", "foo", "x1", "iffy", "letter", "b", "inner", "ofA", "asB", "typeX", "portal",
            "c", "modules", "caseX", "elsewhere", "thenX", "d", "aliasY", "importA", "whereZ",
            "exposingQ", "z_9", "longerNameWithDigits0123456789", "infixl", "effect", "mN0pQ_">>
UpPool == <<"A", "Foo", "B1", "If", "Let", "C", "Case", "In", "Of", "D_e", "Type", "Maybe",
            "LongerName_0123456789", "As", "X">>
TvPool == <<"a", "msg", "b1", "c", "userId", "d0", "comparable", "e_f">>
OpPool == <<"+", "-", "*", "/", "//", "++", "::", "==", "/=", "<", ">", "<=", ">=", "&&", "||",
            "|>", "<|", ">>", "<<", "^", "%", ":=", "|.", "|=", "=>", "<~", "?", "!", "#", "@",
            "...", "\\\\", "===", "$", "&", "~>", ".+">>
NumPool == <<"0", "1", "42", "-7", "+3", "1234567890123456789012", "1.5", "-0.25", "+10.01",
             "007", "3.14159265358979">>
StrPool == <<"", "s", "a b", "--", "{-", "-}", "\\\"", "\\\\", "\\n", "= -> |", "if x then",
             "it's", "(", "]", "a\\\\\\\"b", "\t">>
Str3Pool == <<"", "s", "two\nlines", "say \"hi\" ok", "\n  -- no\n", "\"\" x", "\\">>
ChrPool == <<"a", "Z", "0", " ", "(", "\"", "-", "#", "~">>
HexPool == <<"41", "7e", "00", "ff", "C3", "0a">>
LinePool == <<" note", "", " x = 1", "-", " if (", " {- ", " \"", "|", " trailing  ", "a\tb">>
BlockPool == <<" note ", "", "\nline\n", " -- x\n = 1 ", "-", " { - } ", " {- ", "\n\n  y = 2\n">>
IntPool == <<"0", "9", "5", "10", "9223372036854775807">>

Nth(pool, k) == pool[(k % Len(pool)) + 1]

(* A construct written at once: its text and the trees it stands for.        *)
Ord(c) == CHOOSE k \in 32..126 : SubSeq(
   " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~",
   k - 31, k - 31) = c
HexN(h) == 16 * HexVal[SubSeq(h, 1, 1)] + HexVal[SubSeq(h, 2, 2)]

LeafNames == {"Lo", "Up", "Tv", "Op", "Num", "Str", "Str3", "Chr", "Hex", "Line", "Block", "Int64"}
Leaf(n, k) ==                     \* <<text, tree>>
  CASE n = "Lo"   -> LET s == Nth(LoPool, k) IN <<s, StrN(s)>>
    [] n = "Up"   -> LET s == Nth(UpPool, k) IN <<s, StrN(s)>>
    [] n = "Tv"   -> LET s == Nth(TvPool, k) IN <<s, V("TypeVariable", <<StrN(s)>>)>>
    [] n = "Op"   -> LET s == Nth(OpPool, k) IN <<s, StrN(s)>>
    [] n = "Num"  -> LET s == Nth(NumPool, k) IN
                     <<s, V(IF \E j \in 1..Len(s) : SubSeq(s, j, j) = "." THEN "Float" ELSE "Integer",
                            <<StrN(s)>>)>>
    [] n = "Str"  -> LET s == Nth(StrPool, k) IN <<"\"" \o s \o "\"", V("String", <<StrN(s)>>)>>
    [] n = "Str3" -> LET s == Nth(Str3Pool, k) IN
                     <<"\"\"\"" \o s \o "\"\"\"", V("String", <<StrN(s)>>)>>
    [] n = "Chr"  -> LET s == Nth(ChrPool, k) IN
                     <<"'" \o s \o "'", V("Character", <<ChrN(ToString(Ord(s)))>>)>>
    [] n = "Hex"  -> LET s == Nth(HexPool, k) IN
                     <<"'\\x" \o s \o "'", V("Character", <<ChrN(ToString(HexN(s)))>>)>>
    [] n = "Line" -> LET s == Nth(LinePool, k) IN <<"--" \o s, V("Comment", <<StrN(s)>>)>>
    [] n = "Block" -> LET s == Nth(BlockPool, k) IN
                     <<"{-" \o s \o "-}", V("Comment", <<StrN(s)>>)>>
    [] n = "Int64" -> LET s == Nth(IntPool, k) IN <<s, IntN(s)>>

(* ------------------------------------------------------------ alternatives *)
(* g: the group it belongs to; c: its cost; w: what to write instead;        *)
(* r: the indentation it leaves (layouts), else -1.                          *)
A(g, c, w)        == [g |-> g, c |-> c, w |-> w, r |-> 0 - 1]
L(g, c, s, col)   == [g |-> g, c |-> c, w |-> <<T(s)>>, r |-> col]
VarR              == <<R("[]", 1), R("Variable", 1)>>
Nothing           == A("", 0, <<>>)

(* Layouts.  `cols` are the columns a new line may start at.                 *)
NewLines(cols) == UNION {
   {L("newline", 1, "\n" \o Sp_(c), c), L("blankline", 1, "\n\n" \o Sp_(c), c),
    L("blankline", 1, " \n   \n" \o Sp_(c), c),
    L("comment", 1, " -- note\n" \o Sp_(c), c),
    L("comment", 1, "\n-- a = 1\n" \o Sp_(c), c),
    L("comment", 1, "\n" \o Sp_(c + 3) \o "--\n\n" \o Sp_(c), c)} : c \in cols}
Wide(i) == {L("space", 1, "   ", i)}
Whites(c) == {L("white", 1, s, 0) : s \in {"\n", "\t", "  ", "\r\n", "\n\n      ", " \n "}}

Alts(it) ==
  LET i == it.i  b == it.b  n == it.n IN
  CASE
  (* --- layout --- *)
     n = "Lay" -> {L("", 0, " ", i)} \cup Wide(i) \cup
                  (IF it.s = "GT" THEN NewLines({i + 1, i + 4}) ELSE NewLines({i, i + 2}))
  [] n = "EqLay" -> {L("", 0, "\n" \o Sp_(i), i)} \cup
                  {L("blankline", 1, "\n\n" \o Sp_(i), i), L("blankline", 1, "  \n     \n" \o Sp_(i), i),
                   L("comment", 1, " -- note\n" \o Sp_(i), i),
                   L("comment", 1, "\n-- a -> b\n" \o Sp_(i), i),
                   L("comment", 1, "\n" \o Sp_(i + 2) \o "-- x = 1\n" \o Sp_(i), i)}
  [] n = "BlockLay" -> LET m == IF b + 1 > i THEN b + 1 ELSE i IN
                  {L("", 0, "\n" \o Sp_(m + 2), m + 2),
                   L("newline", 1, "\n" \o Sp_(m), m), L("newline", 1, "\n" \o Sp_(m + 7), m + 7),
                   L("blankline", 1, "\n\n" \o Sp_(m + 1), m + 1),
                   L("comment", 1, " -- of\n" \o Sp_(m + 4), m + 4)} \cup
                  (IF b < i THEN {L("oneline", 1, " ", i)} ELSE {})
  [] n = "OL0"  -> {L("", 0, "", i), L("space", 1, " ", i)} \cup NewLines({i, i + 4})
  [] n = "OL1"  -> {L("", 0, " ", i), L("nospace", 1, "", i)} \cup Wide(i) \cup NewLines({i, i + 4})
  [] n = "W0"   -> {L("", 0, "", 0)} \cup Whites(0)
  [] n = "W0s"  -> {L("", 0, " ", 0), L("nospace", 1, "", 0)} \cup Whites(0)
  [] n = "W1"   -> {L("", 0, " ", 0)} \cup Whites(0)
  [] n = "Sp"   -> {L("", 0, " ", 0), L("space", 1, "    ", 0)}
  [] n = "Bl"   -> {L("", 0, " ", 0), L("white", 1, "\t", 0), L("space", 1, "  ", 0)}
  [] n = "SpNl" -> {L("", 0, " ", 0), L("newline", 1, "\n", 0), L("newline", 1, "\n    ", 0),
                    L("blankline", 1, "\n\n  ", 0), L("space", 1, "  ", 0)}
  (* --- the file --- *)
  [] n = "Doc"  -> {A("", 0, <<Z("Lead"), Z("Stmt"), Z("More"), Z("Trail")>>)}
  [] n = "More" -> {Nothing, A("stmts", 1, <<Z("Gap"), Z("Stmt"), Z("More")>>)}
  [] n = "Lead" -> {Nothing} \cup {A("gap", 1, <<T(s)>>) : s \in {"\n", "  ", "\t\n", "\r\n\n"}}
  [] n = "Trail" -> {A("", 0, <<T("\n")>>)} \cup
                    {A("gap", 1, <<T(s)>>) : s \in {"", "\n\n", "  ", " \n\t\r\n"}}
  [] n = "Gap"  -> {A("", 0, <<T("\n\n")>>)} \cup
                    {A("gap", 1, <<T(s)>>) : s \in {"\n", "\n\n\n\n", " \n", "\n \n", "\t\n", "\r\n"}}
  [] n = "Stmt" ->
      {A("sModule", 0, <<T("module"), Lay("GT", 0), Z("Path"), Lay("GT", 0), T("exposing"),
                         Lay("GT", 0), Z("Exports"), R("ModuleDeclaration", 2)>>),
       A("sModule", 1, <<T("port"), Lay("GT", 0), T("module"), Lay("GT", 0), Z("Path"), Lay("GT", 0),
                         T("exposing"), Lay("GT", 0), Z("Exports"), R("PortModuleDeclaration", 2)>>),
       A("sEffect", 0, <<T("effect"), Lay("GT", 0), T("module"), Lay("GT", 0), Z("Path"), Lay("GT", 0),
                         T("where"), Lay("GT", 0), T("{"), Mark, Z("Wheres"), RM, T("}"), Lay("GT", 0),
                         T("exposing"), Lay("GT", 0), Z("Exports"), R("EffectModuleDeclaration", 3)>>),
       A("sImport", 0, <<T("import"), Z("Sp"), Z("Path"), Z("ImpAs"), Z("ImpExp"), R("ImportStatement", 3)>>),
       A("sAlias", 0, <<T("type"), Z("Sp"), T("alias"), Z("Sp"), Z("Head"), Z("Sp"), T("="),
                        Lay("GTE", 1), I("TAnn", 1), R("TypeAliasDeclaration", 2)>>),
       A("sType", 0, <<T("type"), Z("Sp"), Z("Head"), Lay("GT", 0), I("Union", REG),
                       R("TypeDeclaration", 2)>>),
       A("sPortType", 0, <<T("port"), Z("Sp"), Z("Lo"), Z("Sp"), T(":"), Lay("GT", 0), I("TAnn", REG),
                           R("PortTypeDeclaration", 2)>>),
       A("sPort", 0, <<T("port"), Z("Sp"), Z("Lo"), Mark, Z("PArgs"), RM, Z("Sp"), T("="), Lay("GT", 0),
                       I("Expr", REG), R("PortDeclaration", 3)>>),
       A("sFun", 0, <<I("SigOpt", 0), I("Def", 0), R("Function", 2), R("Function", 1)>>),
       A("sSig", 0, <<I("Sig", 0), I("Def", 0), R("Function", 2), R("Function", 1)>>),
       A("sInfix", 0, <<T("infixl"), R("L", 0), Z("Infix")>>),
       A("sInfix", 0, <<T("infixr"), R("R", 0), Z("Infix")>>),
       A("sInfix", 0, <<T("infix"), R("N", 0), Z("Infix")>>),
       A("sComment", 0, <<Z("Line")>>),
       A("sComment", 0, <<Z("Block")>>)}
  (* --- module headers, imports --- *)
  [] n = "Path" -> {A("", 0, <<Z("Up"), R("[]", 1)>>),
                    A("path", 1, <<Z("Up"), T("."), Z("Up"), R("[]", 2)>>),
                    A("path", 2, <<Z("Up"), T("."), Z("Up"), T("."), Z("Up"), T("."), Z("Up"), R("[]", 4)>>)}
  [] n = "Exports" -> {A("", 0, <<T("("), I("OL0", 0), T(".."), R("AllExport", 0), I("OL0", 0), T(")")>>),
                       A("exports", 1, <<T("("), I("OL0", 0), Mark, Z("Exp"), Z("ExpMore"), RM,
                                         R("SubsetExport", 1), I("OL0", 0), T(")")>>)}
  [] n = "ExpMore" -> {Nothing, A("exports", 1, <<Z("ExpSep"), Z("Exp"), Z("ExpMore")>>)}
  [] n = "ExpSep" -> {A("", 0, <<T(", ")>>)} \cup
                     {A("space", 1, <<T(s)>>) : s \in {",", " , ", " ,"}} \cup
                     {A("newline", 1, <<T(s)>>) : s \in {"\n    , ", ",\n", "\n,\n", ",\n\n  "}}
  [] n = "Exp" -> {A("", 0, <<Z("Lo"), R("FunctionExport", 1)>>),
                   A("exports", 1, <<T("("), Z("Op"), T(")"), R("FunctionExport", 1)>>),
                   A("exports", 1, <<Z("Up"), R("None", 0), R("TypeExport", 2)>>),
                   A("exports", 1, <<Z("Up"), T("(..)"), R("AllExport", 0), R("Some", 1), R("TypeExport", 2)>>),
                   A("exports", 1, <<Z("Up"), T("("), Mark, Z("Up"), R("FunctionExport", 1), Z("CtorMore"),
                                     RM, R("SubsetExport", 1), T(")"), R("Some", 1), R("TypeExport", 2)>>)}
  [] n = "CtorMore" -> {Nothing, A("exports", 1, <<T(", "), Z("Up"), R("FunctionExport", 1), Z("CtorMore")>>)}
  [] n = "ImpAs" -> {A("", 0, <<R("None", 0)>>),
                     A("import", 1, <<Z("Sp"), T("as"), Z("Sp"), Z("Up"), R("Some", 1)>>)}
  [] n = "ImpExp" -> {A("", 0, <<R("None", 0)>>),
                      A("import", 1, <<Z("Sp"), T("exposing"), Z("Sp"), Z("Exports"), R("Some", 1)>>)}
  [] n = "Wheres" -> {Nothing, A("where", 1, <<Z("Where"), Z("WhereMore")>>)}
  [] n = "Where" -> {A("", 0, <<Z("Lo"), T(" = "), Z("Up"), R("()", 2)>>),
                     A("nospace", 1, <<Z("Lo"), T("="), Z("Up"), R("()", 2)>>),
                     A("space", 1, <<Z("Lo"), T("  =   "), Z("Up"), R("()", 2)>>)}
  [] n = "WhereMore" -> {Nothing, A("where", 1, <<T(", "), Z("Where"), Z("WhereMore")>>)}
  [] n = "Infix" -> {A("", 0, <<Z("Sp"), Z("Int64"), Z("Sp"), Z("Op"), R("InfixDeclaration", 3)>>),
                     A("infix", 1, <<Z("Sp"), Z("Int64"), Z("Sp"), Z("Lo"), R("InfixDeclaration", 3)>>)}
  [] n = "PArgs" -> {Nothing, A("args", 1, <<Z("Sp"), Z("Lo"), Z("PArgs")>>)}
  (* --- types --- *)
  [] n = "Head" -> {A("", 0, <<Z("Up"), R("[]", 1), Mark, Z("HeadArgs"), RM, R("TypeConstructor", 2)>>)}
  [] n = "HeadArgs" -> {Nothing, A("head", 1, <<Z("Sp"), Z("Tv"), Z("HeadArgs")>>)}
  [] n = "Union" -> {A("", 0, <<T("="), Lay("GTE", i), Mark, I("TCon", i), I("UMore", i), RM>>)}
  [] n = "UMore" -> {Nothing, A("union", 1, <<Lay("GTE", i), T("|"), Z("Sp"), I("TCon", i), I("UMore", i)>>)}
  [] n = "TAnn" -> {A("", 0, <<I("Type", i)>>),
                    A("arrow", 1, <<I("Type", i), Z("SpNl"), T("->"), Z("SpNl"), I("TAnn", i),
                                    R("TypeApplication", 2)>>)}
  [] n = "TCon" -> {A("", 0, <<Z("Path"), Mark, I("TArgs", i), RM, R("TypeConstructor", 2)>>)}
  [] n = "TArgs" -> {Nothing, A("targs", 1, <<Lay("GT", i), I("TArg", REG), I("TArgs", i)>>)}
  [] n = "TArg" -> {A("", 0, <<Z("Tv")>>),
                    A("tcon", 1, <<Z("Path"), R("[]", 0), R("TypeConstructor", 2)>>)} \cup
                   {A("tbracket", 1, <<I("TBracket", i)>>)}
  [] n = "Type" -> {A("", 0, <<Z("Tv")>>), A("tcon", 1, <<I("TCon", i)>>),
                    A("tbracket", 1, <<I("TBracket", i)>>)}
  [] n = "TBracket" ->
      {A("", 0, <<T("("), I("OL0", i), I("TAnn", i), I("OL0", i), T(")")>>),
       A("", 0, <<T("("), I("OL0", i), R("[]", 0), R("TypeTuple", 1), T(")")>>),
       A("", 0, <<T("("), I("OL0", i), Mark, I("TAnn", i), I("OL0", i), T(","), I("OL1", i), I("TAnn", i),
                  I("TTupMore", i), RM, R("TypeTuple", 1), I("OL0", i), T(")")>>),
       A("", 0, <<T("{"), I("OL0", i), R("[]", 0), R("TypeRecord", 1), T("}")>>),
       A("", 0, <<T("{"), I("OL1", i), Mark, I("TField", i), I("TFieldMore", i), RM, R("TypeRecord", 1),
                  I("OL1", i), T("}")>>),
       A("", 0, <<T("{"), Lay("GTE", i), Z("Tv"), Lay("GTE", i), T("|"), Lay("GTE", i), Mark,
                  I("TField", i), I("TFieldMore", i), RM, I("OL1", i), T("}"),
                  R("TypeRecordConstructor", 2)>>)}
  [] n = "TTupMore" -> {Nothing, A("ttuple", 1, <<I("OL0", i), T(","), I("OL1", i), I("TAnn", i), I("TTupMore", i)>>)}
  [] n = "TField" -> {A("", 0, <<Z("Lo"), I("OL1", i), T(":"), I("OL1", i), I("TAnn", i), R("()", 2)>>)}
  [] n = "TFieldMore" -> {Nothing, A("tfields", 1, <<I("OL0", i), T(","), I("OL1", i), I("TField", i), I("TFieldMore", i)>>)}
  (* --- functions --- *)
  [] n = "FName" -> {A("", 0, <<Z("Lo")>>), A("opname", 1, <<T("("), Z("Op"), T(")")>>)}
  [] n = "SigOpt" -> {A("", 0, <<R("None", 0)>>), A("sig", 1, <<I("Sig", i)>>)}
  [] n = "Sig" -> {A("", 0, <<Z("FName"), Z("Sp"), T(":"), Lay("GT", i), I("TAnn", REG),
                              R("FunctionSignature", 2), R("Some", 1), T("\n" \o Sp_(i))>>)}
  [] n = "Def" -> {A("", 0, <<Z("FName"), Mark, I("FArgs", i), RM, Z("Sp"), T("="), Lay("GT", i),
                              It("Expr", REG, IF i = 0 THEN 0 - 1 ELSE i), R("FunctionDefinition", 3)>>)}
  [] n = "FArgs" -> {Nothing, A("args", 1, <<Z("Sp"), I("PTerm", i), I("FArgs", i)>>)}
  (* --- patterns --- *)
  [] n = "PTerm" -> {A("", 0, <<Z("Lo")>> \o VarR),
                     A("pat", 1, <<T("_"), R("Str_", 0)>> \o VarR),
                     A("pat", 1, <<Z("Up")>> \o VarR),
                     A("pat", 1, <<Z("Num")>>), A("pat", 1, <<Z("Str")>>), A("pat", 1, <<Z("Chr")>>),
                     A("pat", 1, <<T("()"), R("[]", 0), R("Tuple", 1)>>),
                     A("pat", 1, <<T("("), Z("W0"), Mark, I("Pat", i), Z("W0"), T(","), Z("W0s"), I("Pat", i), RM,
                                   R("Tuple", 1), Z("W0"), T(")")>>),
                     A("pat", 1, <<T("("), Z("W0"), I("Pat", i), Z("W0"), T(")")>>),
                     A("pat", 1, <<T("[]"), R("[]", 0), R("List", 1)>>),
                     A("pat", 1, <<T("["), I("OL0", i), Mark, I("Pat", i), RM, R("List", 1), I("OL0", i), T("]")>>),
                     A("pat", 1, <<I("Simp", i)>>)}
  [] n = "Simp" -> {A("", 0, <<T("{"), Z("W0s"), Mark, Z("SimpF"), Z("SimpMore"), RM, R("Record", 1), Z("W0s"), T("}")>>)}
  [] n = "SimpMore" -> {Nothing, A("fields", 1, <<Z("W0"), T(","), Z("W0s"), Z("SimpF"), Z("SimpMore")>>)}
  [] n = "Pat" -> {A("", 0, <<I("PTerm", i)>>),
                   A("pat", 1, <<Z("Up")>> \o VarR \o <<Lay("GT", i), I("PTerm", i), R("Application", 2),
                                                       I("PatMore", i)>>),
                   A("pat", 1, <<I("PTerm", i), Lay("GTE", i), Z("Op")>> \o VarR \o
                               <<Z("W1"), I("Pat", i), R("BinOp", 3)>>),
                   A("pat", 1, <<I("PTerm", i), Lay("GTE", i), T("as"), R("Stras", 0)>> \o VarR \o
                               <<Z("W1"), Z("Lo")>> \o VarR \o <<R("BinOp", 3)>>)}
  [] n = "PatMore" -> {Nothing, A("pat", 1, <<Lay("GT", i), I("PTerm", i), R("Application", 2), I("PatMore", i)>>)}
  (* --- expressions --- *)
  [] n = "App" -> {A("", 0, <<I("Term", i)>>),
                   A("app", 1, <<I("Term", i), Lay("GT", i), I("Term", i), R("Application", 2), I("AppMore", i)>>)}
  [] n = "AppMore" -> {Nothing, A("app", 1, <<Lay("GT", i), I("Term", i), R("Application", 2), I("AppMore", i)>>)}
  [] n = "Expr" ->
      {A("", 0, <<I("App", i)>>),
       A("bin", 1, <<I("App", i), Lay("GTE", i), Z("Op")>> \o VarR \o
                   <<Z("W1"), It("Expr", i, b), R("BinOp", 3)>>),
       A("lam", 1, <<T("\\"), Mark, I("PTerm", i), I("LamMore", i), RM, Lay("GTE", i), T("->"), Lay("GTE", i),
                     It("Expr", REG, b), R("Lambda", 2)>>),
       A("if", 1, <<T("if"), Lay("GTE", i), I("Expr", i), Lay("GTE", i), T("then"), Lay("GTE", i),
                    I("Expr", REG), Lay("GTE", i), T("else"), Lay("GTE", i), It("Expr", REG, b), R("If", 3)>>),
       A("let", 1, <<T("let"), Blk(i, 0 - 1), I("Entries", REG), Lay("GTE", i), T("in"), Lay("GTE", i),
                     It("Expr", i, b), R("Let", 2)>>),
       A("case", 1, <<T("case"), Lay("GTE", i), I("Expr", i), Lay("GTE", i), T("of"), Blk(i, b),
                      I("Branches", REG), R("Case", 2)>>)}
  [] n = "LamMore" -> {Nothing, A("args", 1, <<Z("Bl"), I("PTerm", i), I("LamMore", i)>>)}
  [] n = "Branches" -> {A("", 0, <<Mark, I("Branch", i), I("BrMore", i), RM>>)}
  [] n = "Branch" -> {A("", 0, <<I("Pat", i), Lay("GTE", i), T("->"), Lay("GTE", i), It("Expr", REG, i), R("()", 2)>>)}
  [] n = "BrMore" -> {Nothing, A("branches", 1, <<I("EqLay", i), I("Branch", i), I("BrMore", i)>>)}
  [] n = "Entries" -> {A("", 0, <<Mark, I("Entry", i), I("EnMore", i), RM>>)}
  [] n = "EnMore" -> {Nothing, A("entries", 1, <<I("EqLay", i), I("Entry", i), I("EnMore", i)>>)}
  [] n = "Entry" ->
      {A("", 0, <<Z("Lo")>> \o VarR \o <<I("Bind", i)>>),
       A("entry", 1, <<T("_"), R("Str_", 0)>> \o VarR \o <<I("Bind", i)>>),
       A("entry", 1, <<T("("), Z("W0"), Mark, I("Pat", i), Z("W0"), T(","), Z("W0s"), I("Pat", i), RM,
                       R("Tuple", 1), Z("W0"), T(")"), I("Bind", i)>>),
       A("entry", 1, <<T("["), Mark, I("Pat", i), RM, R("List", 1), T("]"), I("Bind", i)>>),
       A("entry", 1, <<I("Simp", i), I("Bind", i)>>),
       A("entry", 1, <<R("None", 0), Z("FName"), Mark, Z("Sp"), I("PTerm", i), I("FArgs", i), RM, Z("Sp"), T("="),
                       Lay("GT", i), It("Expr", REG, i), R("FunctionDefinition", 3), R("Function", 2),
                       R("LetFunction", 1)>>),
       A("entry", 1, <<I("Sig", i), I("Def", i), R("Function", 2), R("LetFunction", 1)>>)}
  [] n = "Bind" -> {A("", 0, <<Lay("GTE", i), T("="), Lay("GTE", i), It("Expr", REG, i), R("LetBinding", 2)>>)}
  [] n = "Term" ->
      {A("", 0, <<Z("Lo")>> \o VarR),
       A("lit", 1, <<Z("Num")>>), A("lit", 1, <<Z("Str")>>), A("lit", 1, <<Z("Str3")>>),
       A("lit", 1, <<Z("Chr")>>), A("lit", 1, <<Z("Hex")>>),
       A("qual", 1, <<Z("Path"), R("Variable", 1)>>),
       A("qual", 1, <<Z("Path"), R("Variable", 1), T("."), Z("Lo"), R("[]", 1), R("Access", 2)>>),
       A("qual", 1, <<Z("Lo")>> \o VarR \o <<T("."), Mark, Z("Lo"), Z("AccMore"), RM, R("Access", 2)>>),
       A("qual", 1, <<T("."), Z("Lo"), R("AccessFunction", 1)>>),
       A("section", 1, <<T("("), Z("Op"), T(")")>> \o VarR),
       A("section", 1, <<T("(,)"), R("Str,", 0)>> \o VarR),
       A("section", 1, <<T("(,,,)"), R("Str,,,", 0)>> \o VarR),
       A("tuple", 1, <<T("()"), R("[]", 0), R("Tuple", 1)>>),
       A("paren", 1, <<T("("), Z("W0"), I("Expr", i), Z("W0"), T(")")>>),
       A("tuple", 1, <<T("("), Z("W0"), Mark, I("Expr", i), Z("W0"), T(","), Z("W0s"), I("Expr", i), I("TupMore", i),
                       RM, R("Tuple", 1), Z("W0"), T(")")>>),
       A("list", 1, <<T("["), I("OL0", i), T("]"), R("[]", 0), R("List", 1)>>),
       A("list", 1, <<T("["), I("OL0", i), Mark, I("Expr", i), I("ListMore", i), RM, R("List", 1), I("OL0", i), T("]")>>),
       A("record", 1, <<T("{"), I("OL0", i), T("}"), R("[]", 0), R("Record", 1)>>),
       A("record", 1, <<T("{"), I("OL1", i), Mark, I("Field", i), I("FieldMore", i), RM, R("Record", 1), I("OL1", i), T("}")>>),
       A("record", 1, <<I("Simp", i)>>),
       A("record", 1, <<T("{"), I("OL1", i), Z("Lo"), I("OL1", i), T("|"), Z("W0s"), Mark, Z("Lo"), Z("W0s"), T("="), Z("W0s"),
                        I("Expr", i), R("()", 2), I("UpdMore", i), RM, R("RecordUpdate", 2), I("OL1", i), T("}")>>)}
  [] n = "AccMore" -> {Nothing, A("qual", 1, <<T("."), Z("Lo"), Z("AccMore")>>)}
  [] n = "TupMore" -> {Nothing, A("tuple", 1, <<Z("W0"), T(","), Z("W0s"), I("Expr", i), I("TupMore", i)>>)}
  [] n = "ListMore" -> {Nothing, A("list", 1, <<I("OL0", i), T(","), I("OL1", i), I("Expr", i), I("ListMore", i)>>)}
  [] n = "Field" -> {A("", 0, <<Z("Lo"), I("OL1", i), T("="), I("OL1", i), I("Expr", i), R("()", 2)>>)}
  [] n = "FieldMore" -> {Nothing, A("fields", 1, <<I("OL0", i), T(","), I("OL1", i), I("Field", i), I("FieldMore", i)>>)}
  [] n = "UpdMore" -> {Nothing, A("fields", 1, <<I("OL0", i), T(","), I("OL1", i), Z("Lo"), Z("W0s"), T("="), Z("W0s"),
                                                 I("Expr", i), R("()", 2), I("UpdMore", i)>>)}

(* ---------------------------------------------------------------- writing *)
Reduce(k, m, vs) ==               \* vs with its last m trees made one
  LET top == SubSeq(vs, Len(vs) - m + 1, Len(vs))
      node == CASE k = "Str_"   -> StrN("_")
                [] k = "Stras"  -> StrN("as")
                [] k = "Str,"   -> StrN(",")
                [] k = "Str,,," -> StrN(",,,")
                [] k = "BinOp"  -> V("BinOp", <<top[2], top[1], top[3]>>)
                [] OTHER        -> V(k, top)
  IN Append(SubSeq(vs, 1, Len(vs) - m), node)
RECURSIVE LastMark(_, _)
LastMark(vs, k) == IF vs[k] = MarkN THEN k ELSE LastMark(vs, k - 1)

St == [w |-> work, t |-> toks, v |-> vals, f |-> fuel, r |-> reg, c |-> cnt]
(* A line comment goes on to the end of its line.                            *)
OpenComment(t) == t # <<>> /\ Len(t[Len(t)]) > 1 /\ SubSeq(t[Len(t)], 1, 2) = "--"
EndsLine(a) == a.w # <<>> => a.w[1].n = "Txt" /\ (a.w[1].s = "" \/ SubSeq(a.w[1].s, 1, 1) = "\n")
Usable(it, f, t) == {a \in Alts(it) : /\ a.c <= f
                                      /\ a.g = "" \/ a.g \in Groups
                                      /\ it.n \in {"Gap", "Trail"} /\ OpenComment(t) => EndsLine(a)}
Put(st, a) == [st EXCEPT !.w = a.w \o Tail(st.w), !.f = @ - a.c, !.r = IF a.r >= 0 THEN a.r ELSE @]

(* Write on until there is something to choose.                              *)
RECURSIVE Run(_)
Run(st) ==
  IF st.w = <<>> THEN st
  ELSE LET it == IF st.w[1].i = REG THEN [st.w[1] EXCEPT !.i = st.r] ELSE st.w[1]
           rest == Tail(st.w)
       IN CASE it.n = "Txt"  -> Run([st EXCEPT !.w = rest, !.t = Append(@, it.s)])
            [] it.n = "Red"  -> Run([st EXCEPT !.w = rest, !.v = Reduce(it.s, it.m, @)])
            [] it.n = "Mark" -> Run([st EXCEPT !.w = rest, !.v = Append(@, MarkN)])
            [] it.n = "RedMark" ->
                 LET k == LastMark(st.v, Len(st.v)) IN
                 Run([st EXCEPT !.w = rest, !.v = Append(SubSeq(@, 1, k - 1), LN(SubSeq(@, k + 1, Len(@))))])
            [] it.n = "SimpF" ->      \* the field a of { a, b }
                 LET l == Leaf("Lo", st.c) IN
                 Run([st EXCEPT !.w = rest, !.t = Append(@, l[1]),
                                !.v = Append(@, PN(l[2], Var1(l[2].s))), !.c = @ + 1])
            [] it.n \in LeafNames ->
                 LET l == Leaf(it.n, st.c) IN
                 Run([st EXCEPT !.w = rest, !.t = Append(@, l[1]), !.v = Append(@, l[2]), !.c = @ + 1])
            [] OTHER ->
                 LET st1 == [st EXCEPT !.w = <<it>> \o rest]
                     u   == Usable(it, st.f, st.t)
                 IN IF Cardinality(u) = 1 THEN Run(Put(st1, CHOOSE a \in u : TRUE)) ELSE st1

Become(st) == /\ work' = st.w /\ toks' = st.t /\ vals' = st.v
              /\ fuel' = st.f /\ reg' = st.r /\ cnt' = st.c

(* A random draw takes the plain layout in two of three cases and the plain   *)
(* form in one of four, so that the fuel goes into structure.                *)
Draw(u, lay) == LET plain == {a \in u : a.c = 0} IN
                IF plain # {} /\ (IF lay THEN RandomElement(1..3) < 3 ELSE RandomElement(1..4) = 1)
                THEN {RandomElement(plain)} ELSE {RandomElement(u)}
LayoutItems == {"Lay", "EqLay", "BlockLay", "OL0", "OL1", "W0", "W0s", "W1", "Sp", "Bl", "SpNl",
                "Lead", "Trail", "Gap", "ExpSep"}
Choices(it) == LET u == Usable(it, fuel, toks) IN IF Random THEN Draw(u, it.n \in LayoutItems) ELSE u

Write ==
  /\ phase = "write" /\ work # <<>>
  /\ \E a \in Choices(Head(work)) : Become(Run(Put(St, a)))
  /\ UNCHANGED fvars

RECURSIVE Join(_, _)
Join(ts, k) == IF k > Len(ts) THEN "" ELSE ts[k] \o Join(ts, k + 1)
Text == Join(toks, 1)
Chars(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]
OrdOf == [c \in {SubSeq(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~", k, k) : k \in 1..95} |-> Ord(c)]

(* Hand the finished text to the reader, and on to the real parser.          *)
Publish ==
  /\ phase = "write" /\ work = <<>>
  /\ \E s \in {Text} :
       /\ src' = Chars(s)
       /\ cps' = [k \in 1..Len(s) |-> LET c == SubSeq(s, k, k) IN
                    IF c \in DOMAIN OrdOf THEN OrdOf[c] ELSE 0]
       /\ CSVWrite("%1$s", <<ToJson([text |-> s, tree |-> vals])>>, IOEnv.ELM_OUT)
  /\ phase' = "stmt"
  /\ UNCHANGED <<pos, out, spans, gvars>>

Read == phase \notin {"write"} /\ FileNext /\ UNCHANGED gvars

DerivInit ==
  /\ src = <<>> /\ cps = <<>> /\ pos = 1 /\ phase = "write" /\ out = <<>> /\ spans = <<>>
  /\ \E c \in Rotate :
     \E st \in {Run([w |-> <<Z("Doc")>>, t |-> <<>>, v |-> <<>>, f |-> Fuel, r |-> 0, c |-> c])} :
       /\ work = st.w /\ toks = st.t /\ vals = st.v /\ fuel = st.f /\ reg = st.r /\ cnt = st.c
DerivNext == Write \/ Publish \/ Read
DerivSpec == DerivInit /\ [][DerivNext]_dvars

(* ------------------------------------------------------------- properties *)
(* What was written is what is read, whole and in order; nothing the writer  *)
(* may write is rejected.                                                    *)
ReadBack == phase = "accept" => out = vals
NeverRejected == phase # "reject"
PrefixRead == phase # "write" => Len(out) <= Len(vals) /\ out = SubSeq(vals, 1, Len(out))
=============================================================================
