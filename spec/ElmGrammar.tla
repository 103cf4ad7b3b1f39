----------------------------- MODULE ElmGrammar -----------------------------
(* Constructs of the dialect: types, expressions, statements.  One operator  *)
(* per production of src/ast, ordered choice as in the code; what each one   *)
(* returns is the tree a user sees.                                          *)
EXTENDS ElmLex

(* `e` separated by `s`, at least one; a separator not followed by an        *)
(* element is given back.  Instances are written out: TLC evaluates first-   *)
(* order recursion only.                                                     *)

(* ----------------------------------------------------------------- types *)
RECURSIVE TypeAnn(_, _), Type(_, _), TypeArg(_, _), TypeArgs(_, _, _), TypeArrows(_, _, _),
          TypeTupleRest(_, _, _), TypeFields(_, _), TypeFieldsRest(_, _, _)

RECURSIVE FoldArrow(_)
FoldArrow(ts) == IF Len(ts) = 1 THEN ts[1]
                 ELSE V("TypeApplication", <<ts[1], FoldArrow(Tail(ts))>>)

TypeAnn(i, ind) ==
  LET t == Type(i, ind) IN
  IF t.p = 0 THEN F
  ELSE LET r == TypeArrows(t.p, ind, <<t.v>>) IN Ok(r.p, FoldArrow(r.v))

TypeArrows(i, ind, acc) ==
  LET a == SpNl1(i)
      b == IF a = 0 THEN 0 ELSE Tag(a, tArrow)
      c == IF b = 0 THEN 0 ELSE SpNl1(b)
      t == IF c = 0 THEN F ELSE Type(c, ind)
  IN IF t.p = 0 THEN Ok(i, acc) ELSE TypeArrows(t.p, ind, Append(acc, t.v))

TypeVar(i) ==
  LET r == TypeVarName(i) IN
  IF r.p = 0 THEN F ELSE Ok(r.p, V("TypeVariable", <<StrN(r.v)>>))

TypeComma(i, ind) ==             \* a comma with optional layout around it
  LET a == Ch(OptLayout(i, ind), ",") IN IF a = 0 THEN 0 ELSE OptLayout(a, ind)

TypeTuple(i, ind) ==
  LET o == OptLayout(i + 1, ind)
      t == TypeAnn(o, ind)
      r == IF t.p = 0 THEN Ok(o, <<>>) ELSE TypeTupleRest(t.p, ind, <<t.v>>)
      c == Ch(OptLayout(r.p, ind), ")")
  IN IF c = 0 THEN F
     ELSE Ok(c, IF Len(r.v) = 1 THEN r.v[1] ELSE V("TypeTuple", <<LN(r.v)>>))
TypeTupleRest(i, ind, acc) ==
  LET s == TypeComma(i, ind)
      t == IF s = 0 THEN F ELSE TypeAnn(s, ind)
  IN IF t.p = 0 THEN Ok(i, acc) ELSE TypeTupleRest(t.p, ind, Append(acc, t.v))

TypeField(i, ind) ==
  LET n == LoName(i)
      c == IF n.p = 0 THEN 0 ELSE Ch(OptLayout(n.p, ind), ":")
      t == IF c = 0 THEN F ELSE TypeAnn(OptLayout(c, ind), ind)
  IN IF t.p = 0 THEN F ELSE Ok(t.p, PN(StrN(n.v), t.v))
TypeFields(i, ind) ==            \* possibly none
  LET f == TypeField(i, ind) IN
  IF f.p = 0 THEN Ok(i, <<>>) ELSE TypeFieldsRest(f.p, ind, <<f.v>>)
TypeFieldsRest(i, ind, acc) ==
  LET s == TypeComma(i, ind)
      f == IF s = 0 THEN F ELSE TypeField(s, ind)
  IN IF f.p = 0 THEN Ok(i, acc) ELSE TypeFieldsRest(f.p, ind, Append(acc, f.v))

TypeExtRecord(i, ind) ==         \* { a | fields }
  LET l1 == Layout(i + 1, ind, "GTE")
      v  == IF l1.p = 0 THEN F ELSE TypeVar(l1.p)
      l2 == IF v.p = 0 THEN F ELSE Layout(v.p, ind, "GTE")
      b  == IF l2.p = 0 THEN 0 ELSE Ch(l2.p, "|")
      l3 == IF b = 0 THEN F ELSE Layout(b, ind, "GTE")
      fs == IF l3.p = 0 THEN F ELSE TypeFields(l3.p, ind)
      c  == IF fs.p = 0 THEN 0 ELSE Ch(OptLayout(fs.p, ind), "}")
  IN IF c = 0 THEN F ELSE Ok(c, V("TypeRecordConstructor", <<v.v, LN(fs.v)>>))
TypeRecord(i, ind) ==
  LET fs == TypeFields(OptLayout(i + 1, ind), ind)
      c  == Ch(OptLayout(fs.p, ind), "}")
  IN IF c = 0 THEN F ELSE Ok(c, V("TypeRecord", <<LN(fs.v)>>))

TypeBracketed(i, ind) ==
  LET c == At(i) IN
  IF c = "{" THEN LET r == TypeExtRecord(i, ind) IN
                  IF r.p # 0 THEN r ELSE TypeRecord(i, ind)
  ELSE IF c = "(" THEN TypeTuple(i, ind)
  ELSE F

TypeArg(i, ind) ==               \* a type that needs no parentheses as an argument
  LET c == At(i) IN
  IF c \in Lower THEN TypeVar(i)
  ELSE IF c \in Upper THEN LET r == UpPath(i) IN
                           Ok(r.p, V("TypeConstructor", <<LN(r.v), LN(<<>>)>>))
  ELSE TypeBracketed(i, ind)

TypeArgs(i, ind, acc) ==
  LET l == Layout(i, ind, "GT")
      t == IF l.p = 0 THEN F ELSE TypeArg(l.p, l.v)
  IN IF t.p = 0 THEN Ok(i, acc) ELSE TypeArgs(t.p, ind, Append(acc, t.v))

TypeCons(i, ind) ==
  LET n == UpPath(i) IN
  IF n.p = 0 THEN F
  ELSE LET a == TypeArgs(n.p, ind, <<>>) IN
       Ok(a.p, V("TypeConstructor", <<LN(n.v), LN(a.v)>>))

Type(i, ind) ==
  LET c == At(i) IN
  IF c \in Upper THEN TypeCons(i, ind)
  ELSE IF c \in Lower THEN TypeVar(i)
  ELSE TypeBracketed(i, ind)

(* ----------------------------------------------------------- expressions *)
RECURSIVE Expr(_, _), Term(_, _), AppArgs(_, _, _), TupleRest(_, _, _), ListRest(_, _, _),
          RecRest(_, _, _), SimpRest(_, _), UpdRest(_, _, _), LamArgs(_, _, _),
          LetEntries(_, _, _), Cases(_, _, _), FunArgs(_, _, _), Accessors(_, _)

Var1(s) == V("Variable", <<LN(<<StrN(s)>>)>>)

CommaOp(i) ==                    \* (,) (,,) ...
  LET j == Scan(i + 1, {","}) IN
  IF j = i + 1 \/ Ch(j, ")") = 0 THEN F ELSE Ok(j + 1, Cat(i + 1, j))

Variable(i) ==
  LET c == At(i) IN
  IF c \in Lower \/ c = "_" THEN LET r == LoName(i) IN IF r.p = 0 THEN F ELSE Ok(r.p, Var1(r.v))
  ELSE IF c \in Upper THEN LET r == UpPath(i) IN Ok(r.p, V("Variable", <<LN(r.v)>>))
  ELSE IF c = "(" THEN
    LET o == ParenOp(i) IN
    IF o.p # 0 THEN Ok(o.p, Var1(o.v))
    ELSE LET k == CommaOp(i) IN IF k.p = 0 THEN F ELSE Ok(k.p, Var1(k.v))
  ELSE F

Accessors(i, acc) ==
  IF At(i) # "." THEN Ok(i, acc)
  ELSE LET n == LoName(i + 1) IN
       IF n.p = 0 THEN Ok(i, acc) ELSE Accessors(n.p, Append(acc, StrN(n.v)))
AccessOrVar(i) ==                \* r.x.y, Module.f, or a plain variable
  LET v == Variable(i) IN
  IF v.p = 0 THEN F
  ELSE LET a == Accessors(v.p, <<>>) IN
       IF a.v = <<>> THEN v ELSE Ok(a.p, V("Access", <<v.v, LN(a.v)>>))
AccessFn(i) ==
  LET n == LoName(i + 1) IN
  IF n.p = 0 THEN F ELSE Ok(n.p, V("AccessFunction", <<StrN(n.v)>>))

Comma(i, ind) ==
  LET a == Ch(OptLayout(i, ind), ",") IN IF a = 0 THEN 0 ELSE OptLayout(a, ind)

Tuple(i, ind) ==                 \* ( ), (e), (e, e, ...): any white space around entries
  LET e == Expr(White0(i + 1), ind)
      r == IF e.p = 0 THEN Ok(i + 1, <<>>) ELSE TupleRest(White0(e.p), ind, <<e.v>>)
      c == Ch(r.p, ")")
  IN IF c = 0 THEN F
     ELSE Ok(c, IF Len(r.v) = 1 THEN r.v[1] ELSE V("Tuple", <<LN(r.v)>>))
TupleRest(i, ind, acc) ==
  LET s == Ch(i, ",")
      e == IF s = 0 THEN F ELSE Expr(White0(s), ind)
  IN IF e.p = 0 THEN Ok(i, acc) ELSE TupleRest(White0(e.p), ind, Append(acc, e.v))

List(i, ind) ==
  LET o == OptLayout(i + 1, ind)
      e == Expr(o, ind)
      r == IF e.p = 0 THEN Ok(o, <<>>) ELSE ListRest(e.p, ind, <<e.v>>)
      c == Ch(OptLayout(r.p, ind), "]")
  IN IF c = 0 THEN F ELSE Ok(c, V("List", <<LN(r.v)>>))
ListRest(i, ind, acc) ==
  LET s == Comma(i, ind)
      e == IF s = 0 THEN F ELSE Expr(s, ind)
  IN IF e.p = 0 THEN Ok(i, acc) ELSE ListRest(e.p, ind, Append(acc, e.v))

RecField(i, ind) ==
  LET n == LoName(i)
      q == IF n.p = 0 THEN 0 ELSE Ch(OptLayout(n.p, ind), "=")
      e == IF q = 0 THEN F ELSE Expr(OptLayout(q, ind), ind)
  IN IF e.p = 0 THEN F ELSE Ok(e.p, PN(StrN(n.v), e.v))
Record(i, ind) ==
  LET o == OptLayout(i + 1, ind)
      f == RecField(o, ind)
      r == IF f.p = 0 THEN Ok(o, <<>>) ELSE RecRest(f.p, ind, <<f.v>>)
      c == Ch(OptLayout(r.p, ind), "}")
  IN IF c = 0 THEN F ELSE Ok(c, V("Record", <<LN(r.v)>>))
RecRest(i, ind, acc) ==
  LET s == Comma(i, ind)
      f == IF s = 0 THEN F ELSE RecField(s, ind)
  IN IF f.p = 0 THEN Ok(i, acc) ELSE RecRest(f.p, ind, Append(acc, f.v))

SimpField(i) ==                  \* a field of the pattern { a, b }
  LET n == LoName(White0(i)) IN
  IF n.p = 0 THEN F ELSE Ok(White0(n.p), PN(StrN(n.v), Var1(n.v)))
SimpRecord(i) ==
  LET f == SimpField(i + 1)
      r == IF f.p = 0 THEN Ok(i + 1, <<>>) ELSE SimpRest(f.p, <<f.v>>)
      c == Ch(r.p, "}")
  IN IF c = 0 THEN F ELSE Ok(c, V("Record", <<LN(r.v)>>))
SimpRest(i, acc) ==
  LET s == Ch(i, ",")
      f == IF s = 0 THEN F ELSE SimpField(s)
  IN IF f.p = 0 THEN Ok(i, acc) ELSE SimpRest(f.p, Append(acc, f.v))

UpdField(i, ind) ==
  LET n == LoName(i)
      q == IF n.p = 0 THEN 0 ELSE Ch(White0(n.p), "=")
      e == IF q = 0 THEN F ELSE Expr(White0(q), ind)
  IN IF e.p = 0 THEN F ELSE Ok(e.p, PN(StrN(n.v), e.v))
RecordUpdate(i, ind) ==          \* { r | fields }
  LET n == LoName(OptLayout(i + 1, ind))
      b == IF n.p = 0 THEN 0 ELSE Ch(OptLayout(n.p, ind), "|")
      o == White0(b)
      f == UpdField(o, ind)
      r == IF f.p = 0 THEN Ok(o, <<>>) ELSE UpdRest(f.p, ind, <<f.v>>)
      c == Ch(OptLayout(r.p, ind), "}")
  IN IF b = 0 THEN F ELSE IF c = 0 THEN F
     ELSE Ok(c, V("RecordUpdate", <<StrN(n.v), LN(r.v)>>))
UpdRest(i, ind, acc) ==
  LET s == Comma(i, ind)
      f == IF s = 0 THEN F ELSE UpdField(s, ind)
  IN IF f.p = 0 THEN Ok(i, acc) ELSE UpdRest(f.p, ind, Append(acc, f.v))

Term(i, ind) ==
  LET c == At(i) IN
  IF c = "" \/ c \in White THEN F
  ELSE IF c \in NameChar /\ c \notin Digit THEN AccessOrVar(i)
  ELSE IF c \in Digit \/ c = "+" \/ c = "-" THEN NumberLit(i)
  ELSE IF c = "(" THEN LET a == AccessOrVar(i) IN IF a.p # 0 THEN a ELSE Tuple(i, ind)
  ELSE IF c = "." THEN AccessFn(i)
  ELSE IF c = "\"" THEN StringLit(i)
  ELSE IF c = "'" THEN CharLit(i)
  ELSE IF c = "[" THEN List(i, ind)
  ELSE IF c = "{" THEN
    LET u == RecordUpdate(i, ind) IN
    IF u.p # 0 THEN u
    ELSE LET r == Record(i, ind) IN IF r.p # 0 THEN r ELSE SimpRecord(i)
  ELSE F

RECURSIVE FoldApp(_, _)
FoldApp(f, args) == IF args = <<>> THEN f
                    ELSE FoldApp(V("Application", <<f, Head(args)>>), Tail(args))
Application(i, ind) ==
  LET f == Term(i, ind) IN
  IF f.p = 0 THEN F
  ELSE LET a == AppArgs(f.p, ind, <<>>) IN Ok(a.p, FoldApp(f.v, a.v))
AppArgs(i, ind, acc) ==          \* arguments: on the same line, or indented deeper
  LET l == Layout(i, ind, "GT")
      t == IF l.p = 0 THEN F ELSE Term(l.p, ind)
  IN IF t.p = 0 THEN Ok(i, acc) ELSE AppArgs(t.p, ind, Append(acc, t.v))

OpOrAs(i) == LET a == Tag(i, tAs) IN IF a # 0 THEN Ok(a, "as") ELSE Operator(i)

Binary(i, ind) ==                \* operators nest to the right, whatever they are
  LET a == Application(i, ind)
      l == IF a.p = 0 THEN F ELSE Layout(a.p, ind, "GTE")
      o == IF l.p = 0 THEN F ELSE OpOrAs(l.p)
      w == IF o.p = 0 THEN 0 ELSE White1(o.p)
      e == IF w = 0 THEN F ELSE Expr(w, ind)
  IN IF a.p = 0 THEN F
     ELSE IF e.p = 0 THEN a
     ELSE Ok(e.p, V("BinOp", <<Var1(o.v), a.v, e.v>>))

(* A piece and the layout that must follow it, chained.                      *)
Lambda(i, ind) ==
  LET t  == Term(i + 1, ind)
      as == IF t.p = 0 THEN F ELSE LamArgs(t.p, ind, <<t.v>>)
      l  == IF as.p = 0 THEN F ELSE Layout(as.p, ind, "GTE")
      r  == IF l.p = 0 THEN 0 ELSE Tag(l.p, tArrow)
      m  == IF r = 0 THEN F ELSE Layout(r, ind, "GTE")
      b  == IF m.p = 0 THEN F ELSE Expr(m.p, m.v)
  IN IF b.p = 0 THEN F ELSE Ok(b.p, V("Lambda", <<LN(as.v), b.v>>))
LamArgs(i, ind, acc) ==
  LET s == Blank1(i)
      t == IF s = 0 THEN F ELSE Term(s, ind)
  IN IF t.p = 0 THEN Ok(i, acc) ELSE LamArgs(t.p, ind, Append(acc, t.v))

If(i, ind) ==
  LET k1 == Tag(i, tIf)
      l1 == IF k1 = 0 THEN F ELSE Layout(k1, ind, "GTE")
      c  == IF l1.p = 0 THEN F ELSE Expr(l1.p, ind)
      l2 == IF c.p = 0 THEN F ELSE Layout(c.p, ind, "GTE")
      k2 == IF l2.p = 0 THEN 0 ELSE Tag(l2.p, tThen)
      l3 == IF k2 = 0 THEN F ELSE Layout(k2, ind, "GTE")
      a  == IF l3.p = 0 THEN F ELSE Expr(l3.p, l3.v)
      l4 == IF a.p = 0 THEN F ELSE Layout(a.p, ind, "GTE")
      k3 == IF l4.p = 0 THEN 0 ELSE Tag(l4.p, tElse)
      l5 == IF k3 = 0 THEN F ELSE Layout(k3, ind, "GTE")
      b  == IF l5.p = 0 THEN F ELSE Expr(l5.p, l5.v)
  IN IF b.p = 0 THEN F ELSE Ok(b.p, V("If", <<c.v, a.v, b.v>>))

(* Branches of a case and entries of a let start at one column: the block's. *)
CaseBranch(i, ind) ==
  LET m  == Expr(i, ind)
      l1 == IF m.p = 0 THEN F ELSE Layout(m.p, ind, "GTE")
      r  == IF l1.p = 0 THEN 0 ELSE Tag(l1.p, tArrow)
      l2 == IF r = 0 THEN F ELSE Layout(r, ind, "GTE")
      e  == IF l2.p = 0 THEN F ELSE Expr(l2.p, l2.v)
  IN IF e.p = 0 THEN F ELSE Ok(e.p, PN(m.v, e.v))
Cases(i, ind, acc) ==
  LET l == Layout(i, ind, "EQ")
      b == IF l.p = 0 THEN F ELSE CaseBranch(l.p, ind)
  IN IF b.p = 0 THEN Ok(i, acc) ELSE Cases(b.p, ind, Append(acc, b.v))
Case(i, ind) ==
  LET k1 == Tag(i, tCase)
      l1 == IF k1 = 0 THEN F ELSE Layout(k1, ind, "GTE")
      e  == IF l1.p = 0 THEN F ELSE Expr(l1.p, ind)
      l2 == IF e.p = 0 THEN F ELSE Layout(e.p, ind, "GTE")
      k2 == IF l2.p = 0 THEN 0 ELSE Tag(l2.p, tOf)
      l3 == IF k2 = 0 THEN F ELSE Layout(k2, ind, "GTE")
      b  == IF l3.p = 0 THEN F ELSE CaseBranch(l3.p, l3.v)
      r  == IF b.p = 0 THEN F ELSE Cases(b.p, l3.v, <<b.v>>)
  IN IF b.p = 0 THEN F ELSE Ok(r.p, V("Case", <<e.v, LN(r.v)>>))

(* --- function definitions, at top level and in let --- *)
Signature(i, ind) ==
  LET n == FunName(i)
      s == IF n.p = 0 THEN 0 ELSE Spaces(n.p)
      c == IF s = 0 THEN 0 ELSE Ch(s, ":")
      l == IF c = 0 THEN F ELSE Layout(c, ind, "GT")
      t == IF l.p = 0 THEN F ELSE TypeAnn(l.p, l.v)
  IN IF t.p = 0 THEN F ELSE Ok(t.p, V("FunctionSignature", <<StrN(n.v), t.v>>))

FunArgs(i, ind, acc) ==
  LET s == Spaces(i)
      t == IF s = 0 THEN F ELSE Term(s, ind)
  IN IF t.p = 0 THEN Ok(i, acc) ELSE FunArgs(t.p, ind, Append(acc, t.v))
Definition(i, ind) ==
  LET n == FunName(i)
      a == IF n.p = 0 THEN F ELSE FunArgs(n.p, ind, <<>>)
      s == IF a.p = 0 THEN 0 ELSE Spaces(a.p)
      q == IF s = 0 THEN 0 ELSE Ch(s, "=")
      l == IF q = 0 THEN F ELSE Layout(q, ind, "GT")
      b == IF l.p = 0 THEN F ELSE Expr(l.p, l.v)
  IN IF b.p = 0 THEN F ELSE Ok(b.p, V("FunctionDefinition", <<StrN(n.v), LN(a.v), b.v>>))

SameIndent(i, ind) ==            \* one line break, back to the same indentation
  IF Ch(i, "\n") = 0 THEN 0
  ELSE LET j == Scan(i + 1, {" "}) IN IF j - i - 1 = ind THEN j ELSE 0
Function(i, ind) ==
  LET s == Signature(i, ind)
      n == IF s.p = 0 THEN 0 ELSE SameIndent(s.p, ind)
      d == Definition(IF n = 0 THEN i ELSE n, ind)
  IN IF d.p = 0 THEN F
     ELSE Ok(d.p, V("Function", <<IF n = 0 THEN NoneN ELSE SomeN(s.v), d.v>>))

LetTarget(i, ind) ==
  LET v == Variable(i) IN
  IF v.p # 0 THEN v
  ELSE LET c == At(i) IN
       IF c = "[" THEN List(i, ind)
       ELSE IF c = "(" THEN Tuple(i, ind)
       ELSE IF c = "{" THEN SimpRecord(i)
       ELSE F
LetBinding(i, ind) ==
  LET t == LetTarget(i, ind)
      l == IF t.p = 0 THEN F ELSE Layout(t.p, ind, "GTE")
      q == IF l.p = 0 THEN 0 ELSE Ch(l.p, "=")
      m == IF q = 0 THEN F ELSE Layout(q, ind, "GTE")
      e == IF m.p = 0 THEN F ELSE Expr(m.p, m.v)
  IN IF e.p = 0 THEN F ELSE Ok(e.p, V("LetBinding", <<t.v, e.v>>))
LetEntry(i, ind) ==
  LET b == LetBinding(i, ind) IN
  IF b.p # 0 THEN b
  ELSE LET f == Function(i, ind) IN IF f.p = 0 THEN F ELSE Ok(f.p, V("LetFunction", <<f.v>>))
LetEntries(i, ind, acc) ==
  LET l == Layout(i, ind, "EQ")
      e == IF l.p = 0 THEN F ELSE LetEntry(l.p, ind)
  IN IF e.p = 0 THEN Ok(i, acc) ELSE LetEntries(e.p, ind, Append(acc, e.v))
Let(i, ind) ==
  LET k1 == Tag(i, tLet)
      l1 == IF k1 = 0 THEN F ELSE Layout(k1, ind, "GTE")
      e1 == IF l1.p = 0 THEN F ELSE LetEntry(l1.p, l1.v)
      es == IF e1.p = 0 THEN F ELSE LetEntries(e1.p, l1.v, <<e1.v>>)
      l2 == IF es.p = 0 THEN F ELSE Layout(es.p, ind, "GTE")
      k2 == IF l2.p = 0 THEN 0 ELSE Tag(l2.p, tIn)
      l3 == IF k2 = 0 THEN F ELSE Layout(k2, ind, "GTE")
      b  == IF l3.p = 0 THEN F ELSE Expr(l3.p, ind)
  IN IF b.p = 0 THEN F ELSE Ok(b.p, V("Let", <<LN(es.v), b.v>>))

(* A keyword is never a name, so each keyword form excludes Binary.          *)
Expr(i, ind) ==
  LET c == At(i) IN
  IF c = "\\" THEN Lambda(i, ind)
  ELSE LET b == Binary(i, ind) IN
       IF b.p # 0 THEN b
       ELSE IF c = "l" THEN Let(i, ind)
       ELSE IF c = "c" THEN Case(i, ind)
       ELSE IF c = "i" THEN If(i, ind)
       ELSE F

(* ------------------------------------------------------------ statements *)
AllExport == Nd("AllExport", "", <<>>)
FunExport(s) == V("FunctionExport", <<StrN(s)>>)
Subset(c) == V("SubsetExport", <<LN(c)>>)

RECURSIVE CtorRest(_, _), ExportRest(_, _), WhereRest(_, _), PortArgs(_, _), UnionRest(_, _, _)

CtorRest(i, acc) ==
  LET s == Tag(i, tCommaSp)
      n == IF s = 0 THEN F ELSE UpName(s)
  IN IF n.p = 0 THEN Ok(i, acc) ELSE CtorRest(n.p, Append(acc, FunExport(n.v)))
Ctors(i) ==                      \* optional (..) or (A, B)
  IF Ch(i, "(") = 0 THEN Ok(i, NoneN)
  ELSE LET d == Tag(i + 1, tDots)
           n == UpName(i + 1)
           r == IF n.p = 0 THEN F ELSE CtorRest(n.p, <<FunExport(n.v)>>)
       IN IF d # 0 /\ Ch(d, ")") # 0 THEN Ok(d + 1, SomeN(AllExport))
          ELSE IF r.p # 0 /\ Ch(r.p, ")") # 0 THEN Ok(r.p + 1, SomeN(Subset(r.v)))
          ELSE Ok(i, NoneN)
Export(i) ==
  LET f == FunName(i) IN
  IF f.p # 0 THEN Ok(f.p, FunExport(f.v))
  ELSE LET t == UpName(i)
           c == IF t.p = 0 THEN F ELSE Ctors(t.p)
       IN IF c.p = 0 THEN F ELSE Ok(c.p, V("TypeExport", <<StrN(t.v), c.v>>))
ExportRest(i, acc) ==
  LET s == Ch(SpNl0(i), ",")
      e == IF s = 0 THEN F ELSE Export(SpNl0(s))
  IN IF e.p = 0 THEN Ok(i, acc) ELSE ExportRest(e.p, Append(acc, e.v))
Exports(i) ==
  LET o == Ch(i, "(")
      b == IF o = 0 THEN 0 ELSE OptLayout(o, 0)
      d == IF b = 0 THEN 0 ELSE Tag(b, tDots)
      e == IF b = 0 THEN F ELSE Export(b)
      r == IF d # 0 THEN Ok(d, AllExport)
           ELSE IF e.p = 0 THEN F
           ELSE LET x == ExportRest(e.p, <<e.v>>) IN Ok(x.p, Subset(x.v))
      c == IF r.p = 0 THEN 0 ELSE Ch(OptLayout(r.p, 0), ")")
  IN IF c = 0 THEN F ELSE Ok(c, r.v)

Gap0(i) == Layout(i, 0, "GT").p   \* layout inside a top-level declaration; 0 if absent
Word(i, t) ==                     \* a keyword and the layout after it
  LET k == Tag(i, t) IN IF k = 0 THEN 0 ELSE Gap0(k)

ModuleTail(i) ==                  \* Name exposing (...)  ->  <<name, exports>>
  LET n == UpPath(i)
      g == IF n.p = 0 THEN 0 ELSE Gap0(n.p)
      x == IF g = 0 THEN 0 ELSE Word(g, tExposing)
      e == IF x = 0 THEN F ELSE Exports(x)
  IN IF e.p = 0 THEN F ELSE Ok(e.p, <<LN(n.v), e.v>>)
ModuleDecl(i) ==
  LET m == Word(i, tModule)  r == IF m = 0 THEN F ELSE ModuleTail(m) IN
  IF r.p = 0 THEN F ELSE Ok(r.p, V("ModuleDeclaration", r.v))
PortModuleDecl(i) ==
  LET q == Word(i, tPort)
      m == IF q = 0 THEN 0 ELSE Word(q, tModule)
      r == IF m = 0 THEN F ELSE ModuleTail(m)
  IN IF r.p = 0 THEN F ELSE Ok(r.p, V("PortModuleDeclaration", r.v))

WherePair(i) ==
  LET l == LoName(i)
      q == IF l.p = 0 THEN 0 ELSE Ch(Scan(l.p, {" "}), "=")
      u == IF q = 0 THEN F ELSE UpName(Scan(q, {" "}))
  IN IF u.p = 0 THEN F ELSE Ok(u.p, PN(StrN(l.v), StrN(u.v)))
WhereRest(i, acc) ==
  LET s == Tag(i, tCommaSp)
      w == IF s = 0 THEN F ELSE WherePair(s)
  IN IF w.p = 0 THEN Ok(i, acc) ELSE WhereRest(w.p, Append(acc, w.v))
EffectModuleDecl(i) ==
  LET q == Word(i, tEffect)
      m == IF q = 0 THEN 0 ELSE Word(q, tModule)
      n == IF m = 0 THEN F ELSE UpPath(m)
      g == IF n.p = 0 THEN 0 ELSE Gap0(n.p)
      w == IF g = 0 THEN 0 ELSE Word(g, tWhere)
      o == IF w = 0 THEN 0 ELSE Ch(w, "{")
      p1 == IF o = 0 THEN F ELSE WherePair(o)
      ps == IF o = 0 THEN F ELSE IF p1.p = 0 THEN Ok(o, <<>>) ELSE WhereRest(p1.p, <<p1.v>>)
      c == IF o = 0 THEN 0 ELSE Ch(ps.p, "}")
      h == IF c = 0 THEN 0 ELSE Gap0(c)
      x == IF h = 0 THEN 0 ELSE Word(h, tExposing)
      e == IF x = 0 THEN F ELSE Exports(x)
  IN IF e.p = 0 THEN F ELSE Ok(e.p, V("EffectModuleDeclaration", <<LN(n.v), LN(ps.v), e.v>>))

SpacedWord(i, t) ==               \* spaces, keyword, spaces; 0 if absent
  LET s == Spaces(i)
      k == IF s = 0 THEN 0 ELSE Tag(s, t)
  IN IF k = 0 THEN 0 ELSE Spaces(k)
ImportStmt(i) ==
  LET k == Tag(i, tImport)
      s == IF k = 0 THEN 0 ELSE Spaces(k)
      n == IF s = 0 THEN F ELSE UpPath(s)
      a == IF n.p = 0 THEN 0 ELSE SpacedWord(n.p, tAs)
      u == IF a = 0 THEN F ELSE UpName(a)
      q == IF u.p = 0 THEN n.p ELSE u.p
      x == IF n.p = 0 THEN 0 ELSE SpacedWord(q, tExposing)
      e == IF x = 0 THEN F ELSE Exports(x)
  IN IF n.p = 0 THEN F
     ELSE Ok(IF e.p = 0 THEN q ELSE e.p,
             V("ImportStatement", <<LN(n.v), IF u.p = 0 THEN NoneN ELSE SomeN(StrN(u.v)),
                                     IF e.p = 0 THEN NoneN ELSE SomeN(e.v)>>))

SpWord(i, t) == LET k == Tag(i, t) IN IF k = 0 THEN 0 ELSE Spaces(k)   \* keyword, spaces

TypeAliasDecl(i) ==
  LET s == SpWord(i, tType)
      a == IF s = 0 THEN 0 ELSE SpWord(s, tAlias)
      n == IF a = 0 THEN F ELSE Type(a, 0)
      g == IF n.p = 0 THEN 0 ELSE Spaces(n.p)
      q == IF g = 0 THEN 0 ELSE Ch(g, "=")
      l == IF q = 0 THEN F ELSE Layout(q, 1, "GTE")
      t == IF l.p = 0 THEN F ELSE TypeAnn(l.p, 1)
  IN IF t.p = 0 THEN F ELSE Ok(t.p, V("TypeAliasDeclaration", <<n.v, t.v>>))

UnionRest(i, ind, acc) ==
  LET l == Layout(i, ind, "GTE")
      b == IF l.p = 0 THEN 0 ELSE Ch(l.p, "|")
      s == IF b = 0 THEN 0 ELSE Spaces(b)
      t == IF s = 0 THEN F ELSE TypeCons(s, ind)
  IN IF t.p = 0 THEN Ok(i, acc) ELSE UnionRest(t.p, ind, Append(acc, t.v))
TypeDecl(i) ==
  LET s == SpWord(i, tType)
      n == IF s = 0 THEN F ELSE Type(s, 0)
      l == IF n.p = 0 THEN F ELSE Layout(n.p, 0, "GT")
      q == IF l.p = 0 THEN 0 ELSE Ch(l.p, "=")
      m == IF q = 0 THEN F ELSE Layout(q, l.v, "GTE")
      t == IF m.p = 0 THEN F ELSE TypeCons(m.p, l.v)
      r == IF t.p = 0 THEN F ELSE UnionRest(t.p, l.v, <<t.v>>)
  IN IF t.p = 0 THEN F ELSE Ok(r.p, V("TypeDeclaration", <<n.v, LN(r.v)>>))

PortTypeDecl(i) ==
  LET s == SpWord(i, tPort)
      n == IF s = 0 THEN F ELSE LoName(s)
      g == IF n.p = 0 THEN 0 ELSE Spaces(n.p)
      c == IF g = 0 THEN 0 ELSE Ch(g, ":")
      l == IF c = 0 THEN F ELSE Layout(c, 0, "GT")
      t == IF l.p = 0 THEN F ELSE TypeAnn(l.p, l.v)
  IN IF t.p = 0 THEN F ELSE Ok(t.p, V("PortTypeDeclaration", <<StrN(n.v), t.v>>))
PortArgs(i, acc) ==
  LET s == Spaces(i)
      n == IF s = 0 THEN F ELSE LoName(s)
  IN IF n.p = 0 THEN Ok(i, acc) ELSE PortArgs(n.p, Append(acc, StrN(n.v)))
PortDecl(i) ==
  LET s == SpWord(i, tPort)
      n == IF s = 0 THEN F ELSE LoName(s)
      a == IF n.p = 0 THEN F ELSE PortArgs(n.p, <<>>)
      g == IF n.p = 0 THEN 0 ELSE Spaces(a.p)
      q == IF g = 0 THEN 0 ELSE Ch(g, "=")
      l == IF q = 0 THEN F ELSE Layout(q, 0, "GT")
      b == IF l.p = 0 THEN F ELSE Expr(l.p, l.v)
  IN IF b.p = 0 THEN F ELSE Ok(b.p, V("PortDeclaration", <<StrN(n.v), LN(a.v), b.v>>))

InfixDecl(i) ==
  LET l == Tag(i, tInfixL)  r == Tag(i, tInfixR)  n == Tag(i, tInfix)
      k == IF l # 0 THEN l ELSE IF r # 0 THEN r ELSE n
      s == IF k = 0 THEN 0 ELSE Spaces(k)
      d == IF s = 0 THEN F ELSE Int64(s)
      g == IF d.p = 0 THEN 0 ELSE Spaces(d.p)
      o1 == IF g = 0 THEN F ELSE LoName(g)
      o == IF g = 0 THEN F ELSE IF o1.p # 0 THEN o1 ELSE Operator(g)
  IN IF o.p = 0 THEN F
     ELSE Ok(o.p, V("InfixDeclaration",
            <<Nd(IF l # 0 THEN "L" ELSE IF r # 0 THEN "R" ELSE "N", "", <<>>),
              IntN(d.v), StrN(o.v)>>))

Comment(i) ==
  IF Tag(i, tDash2) # 0 THEN
    LET j == ScanTo(i, {"\n"}) IN Ok(j, V("Comment", <<StrN(Cat(i + 2, j))>>))
  ELSE IF Tag(i, tOpenC) # 0 THEN
    LET j == Find(i + 2, tCloseC) IN
    IF j = 0 THEN F ELSE Ok(j + 2, V("Comment", <<StrN(Cat(i + 2, j))>>))
  ELSE F

(* The kinds of statement, in the order they are tried.                      *)
StmtKinds == <<"PortModule", "EffectModule", "Module", "Import", "TypeAlias", "Type",
               "PortType", "Port", "Function", "Infix", "Comment">>
StmtOf(kind, i) ==
  CASE kind = "PortModule"   -> PortModuleDecl(i)
    [] kind = "EffectModule" -> EffectModuleDecl(i)
    [] kind = "Module"       -> ModuleDecl(i)
    [] kind = "Import"       -> ImportStmt(i)
    [] kind = "TypeAlias"    -> TypeAliasDecl(i)
    [] kind = "Type"         -> TypeDecl(i)
    [] kind = "PortType"     -> PortTypeDecl(i)
    [] kind = "Port"         -> PortDecl(i)
    [] kind = "Function"     -> LET f == Function(i, 0) IN
                                IF f.p = 0 THEN F ELSE Ok(f.p, V("Function", <<f.v>>))
    [] kind = "Infix"        -> InfixDecl(i)
    [] kind = "Comment"      -> Comment(i)
RECURSIVE StmtFrom(_, _)
StmtFrom(k, i) == IF k > Len(StmtKinds) THEN F
                  ELSE LET r == StmtOf(StmtKinds[k], i) IN
                       IF r.p # 0 THEN r ELSE StmtFrom(k + 1, i)
Statement(i) == IF i > Len(src) THEN F ELSE StmtFrom(1, i)
=============================================================================
