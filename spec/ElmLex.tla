------------------------------- MODULE ElmLex -------------------------------
(* Lexical layer of the Elm dialect elm-parser reads: characters, names,     *)
(* operators, numbers, and the layout primitive (blanks, line breaks and     *)
(* `--` comments together with the indentation relation).                    *)
(*                                                                           *)
(* A document is `src`, a sequence of one-character strings, with `cps`, the *)
(* code points of the same characters.  A parser is an operator from a       *)
(* position to [p |-> next position, v |-> value]; p = 0 is failure.         *)
EXTENDS Integers, Sequences, TLC

VARIABLES src, cps

F == [p |-> 0, v |-> <<>>]
Ok(p, v) == [p |-> p, v |-> v]

(* Syntax tree nodes.  Every node has the same shape, so any two compare.    *)
Nd(k, s, c) == [k |-> k, s |-> s, c |-> c]
V(k, c)     == Nd(k, "", c)
StrN(s)     == Nd("Str", s, <<>>)
IntN(s)     == Nd("Int", s, <<>>)
ChrN(s)     == Nd("Chr", s, <<>>)
LN(c)       == Nd("[]", "", c)
PN(a, b)    == Nd("()", "", <<a, b>>)
NoneN       == Nd("None", "", <<>>)
SomeN(x)    == Nd("Some", "", <<x>>)

(* ------------------------------------------------------------ characters *)
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
          "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
          "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
NameChar == Lower \cup Upper \cup Digit \cup {"_"}
OpChar == {"-","+","\\","/","*","=",".","$","<",">",":","&","|","^","?","%","#","@","~","!"}
White == {" ", "\t", "\r", "\n"}
Blank == {" ", "\t"}

Keyword == {"module","where","import","as","exposing","type","alias","port",
            "if","then","else","let","in","case","of"}
ReservedOp == {"=", ".", "..", "->", "--", "|", ":"}

DigitVal == [d \in Digit |->
  CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
    [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
HexChar == Digit \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
HexVal == [h \in HexChar |->
  IF h \in Digit THEN DigitVal[h]
  ELSE IF h \in {"a","A"} THEN 10 ELSE IF h \in {"b","B"} THEN 11
  ELSE IF h \in {"c","C"} THEN 12 ELSE IF h \in {"d","D"} THEN 13
  ELSE IF h \in {"e","E"} THEN 14 ELSE 15]

At(i) == IF i <= Len(src) THEN src[i] ELSE ""

(* First position from i on whose character is not in S, and is in S.  The   *)
(* first ones are looked at one by one, which is faster; CHOOSE is given one *)
(* position only, and TLC tries them in order.                               *)
NotIn(i, S) ==
  IF \E k \in i..Len(src) : src[k] \notin S
  THEN CHOOSE k \in i..Len(src) : src[k] \notin S /\ \A m \in i..(k - 1) : src[m] \in S
  ELSE Len(src) + 1
IsIn(i, S) ==
  IF \E k \in i..Len(src) : src[k] \in S
  THEN CHOOSE k \in i..Len(src) : src[k] \in S /\ \A m \in i..(k - 1) : src[m] \notin S
  ELSE Len(src) + 1
RECURSIVE ScanUpTo(_, _, _), ScanToUpTo(_, _, _)
ScanUpTo(i, S, stop) == IF i > Len(src) \/ src[i] \notin S THEN i
                        ELSE IF i = stop THEN NotIn(i, S) ELSE ScanUpTo(i + 1, S, stop)
Scan(i, S) == ScanUpTo(i, S, i + 24)
ScanToUpTo(i, S, stop) == IF i > Len(src) \/ src[i] \in S THEN i
                          ELSE IF i = stop THEN IsIn(i, S) ELSE ScanToUpTo(i + 1, S, stop)
ScanTo(i, S) == ScanToUpTo(i, S, i + 24)

RECURSIVE Cat(_, _)           \* the text of positions i .. j-1
Cat(i, j) == IF i >= j THEN ""
             ELSE IF j = i + 1 THEN src[i]
             ELSE LET m == (i + j) \div 2 IN Cat(i, m) \o Cat(m, j)

Tag(i, t) == IF i + Len(t) - 1 <= Len(src) /\ \A k \in 1..Len(t) : src[i + k - 1] = t[k]
             THEN i + Len(t) ELSE 0
Ch(i, c) == IF i <= Len(src) /\ src[i] = c THEN i + 1 ELSE 0

tModule   == <<"m","o","d","u","l","e">>
tWhere    == <<"w","h","e","r","e">>
tImport   == <<"i","m","p","o","r","t">>
tAs       == <<"a","s">>
tExposing == <<"e","x","p","o","s","i","n","g">>
tType     == <<"t","y","p","e">>
tAlias    == <<"a","l","i","a","s">>
tPort     == <<"p","o","r","t">>
tEffect   == <<"e","f","f","e","c","t">>
tIf       == <<"i","f">>
tThen     == <<"t","h","e","n">>
tElse     == <<"e","l","s","e">>
tLet      == <<"l","e","t">>
tIn       == <<"i","n">>
tCase     == <<"c","a","s","e">>
tOf       == <<"o","f">>
tInfixL   == <<"i","n","f","i","x","l">>
tInfixR   == <<"i","n","f","i","x","r">>
tInfix    == <<"i","n","f","i","x">>
tArrow    == <<"-",">">>
tDots     == <<".",".">>
tCommaSp  == <<","," ">>
tDash2    == <<"-","-">>
tOpenC    == <<"{","-">>
tCloseC   == <<"-","}">>
tQ3       == <<"\"","\"","\"">>

(* ---------------------------------------------------------------- layout *)
Spaces(i)  == LET j == Scan(i, {" "}) IN IF j = i THEN 0 ELSE j      \* one or more spaces
White0(i)  == Scan(i, White)
White1(i)  == LET j == Scan(i, White) IN IF j = i THEN 0 ELSE j
Blank1(i)  == LET j == Scan(i, Blank) IN IF j = i THEN 0 ELSE j
SpNl1(i)   == LET j == Scan(i, {" ", "\n"}) IN IF j = i THEN 0 ELSE j
SpNl0(i)   == Scan(i, {" ", "\n"})

(* The layout between two pieces of one construct: spaces, line breaks and   *)
(* `--` comments.  `col` is the indentation it leaves us at: of the last     *)
(* line break if there was one, else the enclosing indentation.              *)
RECURSIVE LayoutRun(_, _, _, _)
LayoutRun(i, ind, col, nl) ==
  LET c == At(i) IN
  IF c = " " THEN LayoutRun(Scan(i, {" "}), ind, ind, nl)
  ELSE IF c = "\n" THEN
    LET e == Scan(i, {"\n"})  j == Scan(e, {" "}) IN LayoutRun(j, ind, j - e, TRUE)
  ELSE IF c = "-" /\ At(i + 1) = "-" THEN LayoutRun(ScanTo(i, {"\n"}), ind, 0, nl)
  ELSE [p |-> i, col |-> col, nl |-> nl]

(* Without a line break there is no indentation to test; an entry of a block *)
(* ("EQ") starts on a line of its own.                                       *)
Layout(i, ind, rel) ==
  LET c == At(i) IN
  IF c # " " /\ c # "\n" /\ c # "-" THEN F
  ELSE LET r == LayoutRun(i, ind, 0, FALSE) IN
       IF r.p = i THEN F
       ELSE IF \/ ~ r.nl /\ rel # "EQ"
               \/ rel = "EQ"  /\ r.nl /\ r.col = ind
               \/ rel = "GT"  /\ r.col > ind
               \/ rel = "GTE" /\ r.col >= ind
            THEN Ok(r.p, r.col) ELSE F
OptLayout(i, ind) == LET r == Layout(i, ind, "GTE") IN IF r.p = 0 THEN i ELSE r.p

(* ----------------------------------------------------------------- names *)
LoName(i) ==
  LET c == At(i) IN
  IF c = "_" THEN Ok(i + 1, "_")
  ELSE IF c \in Lower THEN
    LET j == Scan(i + 1, NameChar)  s == Cat(i, j) IN
    IF s \in Keyword THEN F ELSE Ok(j, s)
  ELSE F

UpName(i) ==
  IF At(i) \in Upper THEN LET j == Scan(i + 1, NameChar) IN Ok(j, Cat(i, j)) ELSE F

TypeVarName(i) ==
  IF At(i) \in Lower THEN LET j == Scan(i + 1, NameChar) IN Ok(j, Cat(i, j)) ELSE F

Operator(i) ==
  LET j == Scan(i, OpChar) IN
  IF j = i THEN F
  ELSE LET s == Cat(i, j) IN IF s \in ReservedOp THEN F ELSE Ok(j, s)

ParenOp(i) ==                    \* an operator in parentheses, as a name
  IF Ch(i, "(") = 0 THEN F
  ELSE LET o == Operator(i + 1) IN
       IF o.p = 0 \/ Ch(o.p, ")") = 0 THEN F ELSE Ok(o.p + 1, o.v)

FunName(i) == LET r == LoName(i) IN IF r.p # 0 THEN r ELSE ParenOp(i)

RECURSIVE UpPathRest(_, _)
UpPathRest(i, acc) ==
  IF At(i) # "." THEN Ok(i, acc)
  ELSE LET r == UpName(i + 1) IN
       IF r.p = 0 THEN Ok(i, acc) ELSE UpPathRest(r.p, Append(acc, StrN(r.v)))
UpPath(i) ==                     \* Upper names joined by dots
  LET r == UpName(i) IN IF r.p = 0 THEN F ELSE UpPathRest(r.p, <<StrN(r.v)>>)

(* -------------------------------------------------------------- literals *)
NumberLit(i) ==                  \* float, else integer; the sign belongs to the literal
  LET s == IF At(i) \in {"+", "-"} THEN i + 1 ELSE i
      j == Scan(s, Digit)
      k == Scan(j + 1, Digit)
  IN IF j = s THEN F
     ELSE IF At(j) = "." /\ k > j + 1 THEN Ok(k, V("Float", <<StrN(Cat(i, k))>>))
     ELSE Ok(j, V("Integer", <<StrN(Cat(i, j))>>))

CharLit(i) ==
  IF Ch(i, "'") = 0 THEN F
  ELSE IF /\ At(i + 1) = "\\" /\ At(i + 2) = "x"
          /\ At(i + 3) \in HexChar /\ At(i + 4) \in HexChar /\ At(i + 5) = "'"
    THEN Ok(i + 6, V("Character", <<ChrN(ToString(16 * HexVal[src[i + 3]] + HexVal[src[i + 4]]))>>))
  ELSE IF i + 1 <= Len(src) /\ At(i + 2) = "'"
    THEN Ok(i + 3, V("Character", <<ChrN(ToString(cps[i + 1]))>>))
  ELSE F

(* The end of a one-line string's text: a line break, or a quote with no or   *)
(* an even number of backslashes before it.                                  *)
Backslashes(i, k) ==             \* how many there are before k, back to i at most
  IF \E m \in 0..(k - 1 - i) : src[k - 1 - m] # "\\"
  THEN CHOOSE m \in 0..(k - 1 - i) : src[k - 1 - m] # "\\" /\ \A q \in 0..(m - 1) : src[k - 1 - q] = "\\"
  ELSE k - i
StrEnds(i, k) == src[k] = "\n" \/ (src[k] = "\"" /\ Backslashes(i, k) % 2 = 0)
StrEnd(i) ==
  IF \E k \in i..Len(src) : StrEnds(i, k)
  THEN CHOOSE k \in i..Len(src) : StrEnds(i, k) /\ \A m \in i..(k - 1) : ~ StrEnds(i, m)
  ELSE Len(src) + 1
RECURSIVE StrBodyUpTo(_, _)      \* the same, with the first ones looked at one by one
StrBodyUpTo(i, n) ==
  LET j == ScanTo(i, {"\n", "\"", "\\"}) IN
  IF At(j) # "\\" THEN j
  ELSE IF n = 0 THEN StrEnd(i)
  ELSE IF At(j + 1) \in {"\\", "\""} THEN StrBodyUpTo(j + 2, n - 1)
  ELSE StrBodyUpTo(j + 1, n - 1)
StrBody(i) == StrBodyUpTo(i, 24)

(* First occurrence of tag t from i on, else 0.                              *)
FindFrom(i, t) ==
  IF \E k \in i..Len(src) : Tag(k, t) # 0
  THEN CHOOSE k \in i..Len(src) : Tag(k, t) # 0 /\ \A m \in i..(k - 1) : Tag(m, t) = 0
  ELSE 0
RECURSIVE FindUpTo(_, _, _)
FindUpTo(i, t, n) ==
  LET j == ScanTo(i, {t[1]}) IN
  IF j > Len(src) THEN 0 ELSE IF Tag(j, t) # 0 THEN j
  ELSE IF n = 0 THEN FindFrom(j, t) ELSE FindUpTo(j + 1, t, n - 1)
Find(i, t) == FindUpTo(i, t, 24)

StringLit(i) ==
  IF Ch(i, "\"") = 0 THEN F
  ELSE LET m == IF Tag(i, tQ3) # 0 THEN Find(i + 3, tQ3) ELSE 0
           j == StrBody(i + 1)
       IN IF m # 0 THEN Ok(m + 3, V("String", <<StrN(Cat(i + 3, m))>>))
          ELSE IF Ch(j, "\"") # 0 THEN Ok(j + 1, V("String", <<StrN(Cat(i + 1, j))>>))
          ELSE F

(* Natural number as the signed 64-bit integer it must fit in.               *)
Max64 == <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","7">>
RECURSIVE DigitsLeq(_, _)        \* the 19 digits from i on against Max64 from position k
DigitsLeq(i, k) ==
  IF k > 19 THEN TRUE
  ELSE LET a == DigitVal[src[i]]  b == DigitVal[Max64[k]] IN
       IF a < b THEN TRUE ELSE IF a > b THEN FALSE ELSE DigitsLeq(i + 1, k + 1)
Int64(i) ==
  LET j == Scan(i, Digit)  z == Scan(i, {"0"})
      len == j - z
  IN IF j = i THEN F
     ELSE IF len = 0 THEN Ok(j, "0")
     ELSE IF len < 19 \/ (len = 19 /\ DigitsLeq(z, 1)) THEN Ok(j, Cat(z, j))
     ELSE F
=============================================================================
