------------------------------- MODULE PrintMC -------------------------------
(***************************************************************************)
(* Bounded models of what frames print (group "print") and of the choice of *)
(* short names (group "names"): the columns are taken in any order, each    *)
(* gets its shortest beginning which is neither taken nor the name of       *)
(* another column.                                                          *)
(***************************************************************************)
EXTENDS Print, Json

CONSTANTS Group, Rich, Emit

VARIABLES S, h, todo, given
vars == <<S, h, todo, given>>

STR(k) == 700000000 + k
Col(nm, t, s, v) == [n |-> nm, t |-> t, s |-> s, v |-> v]
NewOp(id, cols) == [op |-> "New", f |-> id, n |-> Len(cols[1].v), cols |-> cols, cpu |-> 2, enc |-> "utf8", via |-> "set"]
MkNew(T, o) == Create(T, o.f, o.n, o.cols, o.cpu, o.enc)
PrintOp(f, n, kinds, short, good, min) ==
  [op |-> "Print", f |-> f, n |-> n, kinds |-> kinds, fmt |-> "", short |-> short, good |-> good, empty |-> TRUE, min |-> min]
K == Len(h)
Step(o, S2) == S' = TLCEval(S2) /\ h' = Append(h, o)
Final(o) == Step(o, [S EXCEPT !.w = {}]) /\ (Emit => PrintT(ToJson(h')))
SeqsOf(X, lo, hi) == UNION {[1..m -> X] : m \in lo..hi}

(******************************* printing **********************************)
Base == NewOp(1, <<Col("a", "f", FALSE, <<256, NAN, -128>>), Col("B", "i", FALSE, <<0, -512, 2560>>), Col("ab", "b", FALSE, <<ONE, 0, ONE>>),
                   Col("s", "o", TRUE, <<STR(1), NIL, STR(0)>>), Col("o", "o", FALSE, <<NIL, 700500001, 700500002>>)>>)
Order == <<"B", "a", "ab", "o", "s">>
Texts == [f |-> (256 :> "1.000" @@ NAN :> "NaN" @@ (-128) :> "-0.500"), i |-> (0 :> "0" @@ (-512) :> "-2" @@ 2560 :> "10"),
          o |-> (STR(1) :> "a" @@ STR(0) :> "" @@ 700500001 :> "&{1}" @@ 700500002 :> "&{2}")]
Views == IF Rich THEN SeqsOf(1..3, 0, 4) ELSE SeqsOf(1..3, 0, 2) \cup {<<3, 1, 2>>, <<2, 2, 2>>}
Kinds == {<<"head">>, <<"records">>, <<"summary">>, <<"records", "summary", "head">>}
Shorts == {<<>>, <<[k |-> "ab", x |-> "%d"], [k |-> "zz", x |-> "a"]>>, <<[k |-> "a", x |-> ""]>>}
PrintNext ==
  CASE K = 1 -> \/ \E i \in Views : Step([op |-> "IndexView", f |-> 2, src |-> 1, idx |-> i], OpIndexView(S, 2, 1, i))
                \/ \E C \in {{"a"}, {"s", "ab"}, {"o", "B"}, {}} :
                     Step([op |-> "ColumnView", f |-> 2, src |-> 1, cols |-> SetToSeq(C)], OpColumnView(S, 2, 1, C))
    [] K = 2 -> \E f \in {1, 2}, n \in -1..4, k \in Kinds, s \in Shorts :
                  /\ ("records" \in Rng(k) \/ s = <<>>) /\ (Rich \/ f = 2)
                  /\ Final(PrintOp(f, n, k, s, FALSE, 0))
    [] OTHER -> FALSE

(*************************** short names ***********************************)
Pool == {"a", "ab", "abc", "abcd", "abd", "abcde", "b", "xabc", "abcx"}
Names0 == {C \in SUBSET Pool : Cardinality(C) \in 1..(IF Rich THEN 5 ELSE 3)}
Min0 == {-1, 1, 2, 4} \cup (IF Rich THEN {0, 3} ELSE {})
MinOf(m) == IF m <= 0 THEN 3 ELSE m
NamesInit == \E C \in Names0, m \in Min0 :
  /\ h = <<NewOp(1, [i \in 1..Cardinality(C) |-> Col(SetToSeq(C)[i], "f", FALSE, <<256>>)]), [op |-> "ShortNames", f |-> 1, min |-> m]>>
  /\ todo = C
MinLen == h[2].min
Cols == {h[1].cols[i].n : i \in 1..Len(h[1].cols)}
Free(c) == {k \in MinOf(MinLen)..Len(c) : LET b == SubSeq(c, 1, k) IN b \notin {given[x] : x \in DOMAIN given} /\ (b = c \/ b \notin Cols)}
NamesNext ==
  \/ \E c \in todo :
       /\ todo' = todo \ {c}
       /\ given' = IF Free(c) = {} THEN given
                   ELSE (c :> SubSeq(c, 1, CHOOSE k \in Free(c) : \A j \in Free(c) : k <= j)) @@ given
       /\ UNCHANGED <<S, h>>
  \/ /\ todo = {} /\ K = 2 /\ UNCHANGED <<todo, given>>
     /\ Final(PrintOp(1, -1, <<"records">>, <<>>, TRUE, MinLen))

Init == /\ given = <<>>
        /\ IF Group = "print" THEN h = <<Base>> /\ todo = {} ELSE NamesInit
        /\ S = MkNew(InitState, h[1])
Next == IF Group = "print" THEN PrintNext /\ UNCHANGED <<todo, given>> ELSE NamesNext
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
\* the short names tell the columns apart, whatever the order
NamesApart == Group = "names" /\ todo = {} => ShortNamesOk(Cols, MinLen, given)

\* a view prints the lines of the rows it selects, and the columns it has
Sorted(f) == SelectSeq(Order, LAMBDA c : c \in Names(S.fr[f]))
Body(f, j, sh) == Cat([k \in 1..Len(Sorted(f)) |-> " " \o (IF Sorted(f)[k] \in DOMAIN sh THEN sh[Sorted(f)[k]] ELSE Sorted(f)[k]) \o ": " \o
                                                    CellText(S, S.fr[f], Sorted(f)[k], j, Texts)])
RowOf(f, j) == IF f = 1 THEN j ELSE IF h[2].op = "IndexView" THEN h[2].idx[j] ELSE j
EndsWith(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
\* a head is the records, transposed
Recs(o) == RecordLines(S, S.fr[o.f], o.n, Sorted(o.f), Texts, TableFn(o.short), S.fr[o.f].rows)
Heads(o) == HeadLines(S, S.fr[o.f], o.n, Sorted(o.f), Texts)
Prints == LET o == h[K] IN (Group = "print" /\ o.op = "Print") =>
  LET m == Cardinality({j \in 1..NRows(S.fr[o.f]) : o.n < 0 \/ j <= o.n}) IN
  /\ Len(Recs(o)) = m /\ Len(Heads(o)) = Cardinality(Names(S.fr[o.f]))
  /\ \A j \in 1..m : EndsWith(Recs(o)[j], Body(o.f, j, TableFn(o.short)))
  /\ (Names(S.fr[o.f]) = Names(S.fr[1])) => \A j \in 1..m : Body(o.f, j, <<>>) = Body(1, RowOf(o.f, j), <<>>)
  /\ \A c \in Names(S.fr[o.f]) : \E i \in 1..Len(Heads(o)) :
       Heads(o)[i] = c \o ":" \o Cat([j \in 1..m |-> " " \o CellText(S, S.fr[1], c, RowOf(o.f, j), Texts)])
=============================================================================
