------------------------------- MODULE Misuse -------------------------------
(***************************************************************************)
(* Which calls the library has to refuse (by a panic or an error, as it is  *)
(* documented for each function), and the sizes of the answers to those it  *)
(* has to answer.                                                           *)
(***************************************************************************)
EXTENDS Frames

Total(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
TypeIs(F, c, ts) == c \in Names(F) /\ F.cols[c].t \in ts
NUM == {"f", "i", "b"}
Marked(F, c) == c \in Names(F) /\ F.cols[c].s

(* what a file of records has, with a given header or its own ("a header    *)
(* that is shorter than the records" is unspecified)                        *)
HeaderOf(x, file) == IF x.given # <<>> THEN x.given ELSE file.header
FileBad(x, file) ==
  \/ file.header = <<>> /\ x.given = <<>>                      \* no header at all
  \/ \E i \in 1..Len(file.lens) : file.lens[i] # file.lens[1]  \* records differ in length
  \/ file.lens # <<>> /\ (IF x.given # <<>> THEN file.lens[1] < Len(x.given) ELSE file.lens[1] # Len(file.header))
FileLoose(x, file) == x.given # <<>> /\ file.lens # <<>> /\ file.lens[1] > Len(x.given)
Kept(x, file) == Rng(HeaderOf(x, file)) \ Rng(x.exclude)
FilesOf(x) == IF x.pattern THEN x.files ELSE <<x.files[1]>>
CsvBad(x) == LET fs == FilesOf(x) IN
  \/ \E i \in 1..Len(fs) : FileBad(x, fs[i])
  \/ \E i \in 1..Len(fs) : Kept(x, fs[i]) # Kept(x, fs[1])

Overlaps(S, fs) == \E i, j \in 1..Len(fs) : i < j /\ Names(S.fr[fs[i]]) \cap Names(S.fr[fs[j]]) # {}
IterTypes(F, G, cols) == \A i \in 1..Len(cols) : TypeIs(G, cols[i], {F.cols[cols[i]].t})

(* the call x of state S has to be refused *)
Invalid(S, x) ==
  LET F == S.fr[x.f]
      n == NRows(F)
  IN CASE x.kind = "sample"  -> x.repl \/ x.k > n
       [] x.kind = "splitn"  -> x.k < 0
       [] x.kind = "split"   -> x.k <= 0
       [] x.kind = "ratio"   -> x.num < 0 \/ x.num > x.den
       [] x.kind = "sort"    -> ~TypeIs(F, x.col, NUM)
       [] x.kind = "top"     -> (x.k < n /\ x.k < 0) \/ ~TypeIs(F, x.col, NUM)
       [] x.kind = "ints"    -> ~TypeIs(F, x.col, {"i"})
       [] x.kind = "bools"   -> ~TypeIs(F, x.col, {"b"})
       [] x.kind = "floats"  -> ~TypeIs(F, x.col, {"f"})
       [] x.kind = "objects" -> ~TypeIs(F, x.col, {"o"})
       [] x.kind \in {"strings", "labels"} -> ~Marked(F, x.col)
       [] x.kind \in {"rename", "values"} -> x.col \notin Names(F)
       [] x.kind = "dense"   -> \E i \in 1..Len(x.cols) : ~TypeIs(F, x.cols[i], NUM)
       [] x.kind = "iterate" -> \/ \E i \in 1..Len(x.cols) : ~TypeIs(F, x.cols[i], NUM)
                                \/ "g" \in DOMAIN x /\ ~IterTypes(F, S.fr[x.g], x.cols)
       [] x.kind = "metric"  -> n # NRows(S.fr[x.g])
       [] x.kind = "overlap" -> Overlaps(S, x.fs)
       [] x.kind = "rowconcat" -> x.fs = <<>> \/ ~RowConcatOk(S, x.fs)
       [] x.kind = "sizes"   -> \E i \in 1..Len(x.sizes) : x.sizes[i] # x.sizes[1]
       [] OTHER              -> CsvBad(x)
(* it may be answered or refused: all the rows are asked for in any order    *)
Either(S, x) ==
  CASE x.kind = "top" -> ~x.sorted /\ x.k >= NRows(S.fr[x.f])
    [] x.kind = "csv" -> \E i \in 1..Len(x.files) : FileLoose(x, x.files[i])
    [] OTHER -> FALSE

(* the sizes of what an answered call returns *)
Cut(n, k) == [i \in 1..(IF n = 0 THEN 1 ELSE (n + k - 1) \div k) |-> IF i * k <= n THEN k ELSE n - (i-1) * k]
SizesOk(S, x, got) ==
  LET n == NRows(S.fr[x.f]) IN
  CASE x.kind = "sample" -> got = <<x.k>>
    [] x.kind = "splitn" -> Len(got) = x.k /\ (x.k > 0 => Total(got) = n)
    [] x.kind = "split"  -> got = Cut(n, x.k)
    [] x.kind = "ratio"  -> LET k == (n * x.num) \div x.den IN got = <<n - k, k>>
    [] x.kind = "top"    -> got = <<Min2(n, x.k)>>
    [] x.kind \in {"rename", "metric", "overlap"} -> got = <<>>
    [] x.kind = "dense"  -> got = <<n, Len(x.cols)>>
    [] x.kind = "iterate" -> got = <<IF "g" \in DOMAIN x THEN NRows(S.fr[x.g]) ELSE n>>
    [] x.kind = "rowconcat" -> got = <<Total([i \in 1..Len(x.fs) |-> NRows(S.fr[x.fs[i]])])>>
    [] x.kind = "sizes"  -> got = <<x.sizes[1]>>
    [] x.kind = "csv"    -> \/ Kept(x, x.files[1]) = {}   \* rows of no columns
                            \/ got = <<Total([i \in 1..Len(FilesOf(x)) |-> Len(FilesOf(x)[i].lens)])>>
    [] OTHER             -> got = <<n>>
=============================================================================
