------------------------------- MODULE Print --------------------------------
(***************************************************************************)
(* What frames print.  Texts are compared line by line; the text of a       *)
(* number or string is given by tables (float, int and object tokens to     *)
(* texts), the layout is the one specified here.                            *)
(***************************************************************************)
EXTENDS Frames

RECURSIVE CatR(_, _, _)
CatR(s, a, b) == IF b < a THEN "" ELSE IF a = b THEN s[a]
                 ELSE CatR(s, a, (a + b) \div 2) \o CatR(s, (a + b) \div 2 + 1, b)
Cat(s) == CatR(s, 1, Len(s))
TableFn(ps) == TLCEval([x \in {ps[i].k : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i].k = x].x])

\* tb = [f, i, o]: texts of the floats, integers, and objects
CellText(S, F, c, j, tb) ==
  LET v == S.heap[F.cols[c].c[j]] IN
  CASE F.cols[c].t = "f" -> tb.f[v]
    [] F.cols[c].t = "i" -> tb.i[v]
    [] F.cols[c].t = "b" -> IF v = ONE THEN "1" ELSE "0"
    [] v = NIL           -> "<missing>"
    [] F.cols[c].s       -> IF F.enc = "utf8" THEN "'" \o tb.o[v] \o "'" ELSE "<NOT-UTF8>"
    [] OTHER             -> tb.o[v]
Printed(F, n) == IF n < 0 \/ n > NRows(F) THEN NRows(F) ELSE n
\* order: all the columns in alphabetical order
OfType(F, order, t) == SelectSeq(order, LAMBDA c : F.cols[c].t = t)

(* one line per column: floats, integers, booleans, objects *)
HeadLines(S, F, n, order, tb) ==
  LET cs == OfType(F, order, "f") \o OfType(F, order, "i") \o OfType(F, order, "b") \o OfType(F, order, "o")
  IN [k \in 1..Len(cs) |-> cs[k] \o ":" \o Cat([j \in 1..Printed(F, n) |-> " " \o CellText(S, F, cs[k], j, tb)])]

(* one line per row; the rank of the row is aligned to the right *)
Width(x) == IF x <= 9 THEN 1 ELSE IF x <= 99 THEN 2 ELSE IF x <= 999 THEN 3 ELSE IF x <= 9999 THEN 4 ELSE 1
RECURSIVE PadLeft(_, _)
PadLeft(s, n) == IF Len(s) >= n THEN s ELSE PadLeft(" " \o s, n)
RecordLines(S, F, n, order, tb, short, idx) ==
  LET m == Printed(F, n)
      nm(c) == IF c \in DOMAIN short THEN short[c] ELSE c
  IN [j \in 1..m |-> "[" \o PadLeft(ToString(j - 1), Width(m - 1)) \o ":" \o ToString(idx[j]) \o "]" \o
                     Cat([k \in 1..Len(order) |-> " " \o nm(order[k]) \o ": " \o CellText(S, F, order[k], j, tb)])]

(* the columns of each type, the number of rows, and of processors *)
NameList(cs) == "[" \o Cat([k \in 1..Len(cs) |-> (IF k = 1 THEN "" ELSE " ") \o cs[k]]) \o "]"
SummaryLines(F, order) ==
  LET line(title, cs) == IF cs = <<>> THEN <<>> ELSE <<title \o NameList(cs)>>
  IN line("float   ", OfType(F, order, "f")) \o line("int     ", OfType(F, order, "i")) \o line("bool    ", OfType(F, order, "b")) \o
     line("object  ", SelectSeq(OfType(F, order, "o"), LAMBDA c : ~F.cols[c].s)) \o
     line("string  ", SelectSeq(OfType(F, order, "o"), LAMBDA c : F.cols[c].s)) \o
     <<"rows    " \o ToString(NRows(F)), "max CPU " \o ToString(F.cpu)>>

(* short names: beginnings of the names, of the given length at least, that   *)
(* tell the columns apart, and no longer than that takes                      *)
ShortNamesOk(names, min, short) ==
  LET m == IF min <= 0 THEN 3 ELSE min
      shown == TLCEval([c \in names |-> IF c \in DOMAIN short THEN short[c] ELSE c])
  IN /\ DOMAIN short \subseteq names
     /\ \A c \in DOMAIN short : Len(short[c]) >= m /\ Len(short[c]) <= Len(c) /\ short[c] = SubSeq(c, 1, Len(short[c]))
     /\ \A c, d \in names : c # d => shown[c] # shown[d]
     /\ \A c \in names : \A k \in m..(Len(shown[c]) - 1) :
          \E d \in names \ {c} : SubSeq(c, 1, k) \in {shown[d], d}
=============================================================================
