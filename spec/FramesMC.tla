------------------------------ MODULE FramesMC -------------------------------
(***************************************************************************)
(* The frame operations as a state machine with small constants.  TLC       *)
(* visits every history of up to Depth operations of a group, checks the    *)
(* properties below in every state and at every step, and (Emit) prints     *)
(* every history so that it can be replayed on the implementation.          *)
(*                                                                         *)
(* The properties are stated on what frames SHOW (values per row), not on   *)
(* the cells the operators are defined with, wherever that is possible.     *)
(***************************************************************************)
EXTENDS Csv, Json

CONSTANTS Group,   \* set of operations
          Depth,   \* number of operations, creations included
          Rich,    \* larger sets of arguments
          Emit     \* print the histories

VARIABLES S, h, nx
vars == <<S, h, nx>>
View == <<S, nx>>

(****************************** data ***************************************)
STR(k) == 700000000 + k
OBJ(k) == 700500000 + k
\* values of row j in a column of type ty, number k tells columns apart
Dat(ty, k, n) ==
  [j \in 1..n |-> CASE ty = "f" -> IF j = 2 THEN NAN ELSE 128 * (10 * k + j)
                    [] ty = "i" -> IF j = 3 THEN MISSINT ELSE 256 * (10 * k + j)
                    [] ty = "b" -> IF (j + k) % 2 = 0 THEN ONE ELSE 0
                    [] ty = "s" -> IF j = 2 THEN NIL ELSE STR((k + j) % 5)
                    [] OTHER    -> IF j = 1 THEN NIL ELSE OBJ((k + j) % 4)]
Col(nm, ty, k, n) == [n |-> nm, t |-> IF ty = "s" THEN "o" ELSE ty, s |-> ty = "s", v |-> Dat(ty, k, n)]
NewOp(id, n, cols, cpu) == [op |-> "New", f |-> id, n |-> n, cols |-> cols, cpu |-> cpu, enc |-> "utf8", via |-> "set"]

\* initial frames, as sequences of creations; the first row of each: id, rows, columns
Inits ==
  LET two(n, k)   == <<Col("a", "f", k, n), Col("b", "s", k, n)>>
      all(n, k)   == <<Col("a", "f", k, n), Col("b", "s", k, n), Col("c", "i", k, n), Col("d", "b", k, n), Col("e", "o", k, n)>>
      other(n, k) == <<Col("c", "i", k, n), Col("d", "s", k, n)>>
  IN CASE "concat" \in Group -> {<<NewOp(1, n, two(n, 1), 2), NewOp(2, m, cs, 3)>> :
                                   n \in {0, 2, 3}, m \in {0, 2, 3}, cs \in {other(3, 2)}}
       [] "consel" \in Group -> {<<NewOp(1, 8, <<Col("a", "f", 1, 8), Col("b", "i", 2, 8)>>, 2)>>}
       [] "rowcat" \in Group -> {<<NewOp(1, n, two(n, 1), 2), NewOp(2, m, two(m, 2), 3)>> : n \in {0, 2}, m \in {0, 1, 3}}
       [] "sort" \in Group   -> {<<NewOp(1, 3, <<Col("a", "f", 1, 3), [n |-> "k", t |-> ty, s |-> FALSE, v |-> v]>>, 1)>> :
                                   ty \in {"i"}, v \in [1..3 -> {MISSINT, 1900000002, 1900000003, -1999999989}]}
                                \cup {<<NewOp(1, 4, <<Col("c", "i", 1, 4), [n |-> "k", t |-> ty, s |-> FALSE, v |-> v]>>, 1)>> :
                                   ty \in {"b"}, v \in [1..4 -> {0, ONE}]}
                                \cup {<<NewOp(1, 3, <<Col("c", "i", 1, 3), [n |-> "k", t |-> "f", s |-> FALSE, v |-> v]>>, 1)>> :
                                   v \in [1..3 -> {-128, 0, 64, 2000000000}]}
       [] "split" \in Group  -> {<<NewOp(1, n, two(n, 1), 2)>> : n \in 0..(IF Rich THEN 7 ELSE 5)}
       [] "view" \in Group   -> {<<NewOp(1, n, two(n, 1), 2)>> : n \in {0, 1, 3}}
       [] "struct" \in Group -> {<<NewOp(1, n, two(n, 1), 2)>> : n \in {0, 2}}
       [] "par" \in Group    -> {<<NewOp(1, 3, two(3, 1), 2)>>}
       [] "pair" \in Group   -> {<<NewOp(1, 3, two(3, 1), 2)>>, <<NewOp(1, 1, two(1, 1), 2)>>}
       [] "read" \in Group   -> {<<NewOp(1, n, all(n, 1), 2)>> : n \in {1, 3}}
       [] OTHER              -> {<<NewOp(1, 3, two(3, 1), 2)>>}
CfgName(c) == [n |-> Len(c.v), cols |-> c]
ApplyNew(T, o) == Create(T, o.f, o.n, o.cols, o.cpu, o.enc)

Init == \E ops \in Inits :
          /\ h = [k \in 1..Len(ops) |-> IF ops[k].n = Len(ops[k].cols[1].v) THEN ops[k]
                    ELSE [ops[k] EXCEPT !.cols = [i \in 1..Len(@) |-> [@[i] EXCEPT !.v = SubSeq(@, 1, ops[k].n)]]]]
          /\ S = TLCEval(FoldSeq(LAMBDA o, T : ApplyNew(T, o), InitState, h))
          /\ nx = Len(ops) + 1

(****************************** steps **************************************)
Do(o, S2, k) ==
  /\ Len(h) < Depth
  /\ S' = TLCEval(S2)
  /\ h' = Append(h, o)
  /\ nx' = nx + k
  /\ (Emit => PrintT(ToJson(h')))

Ids == DOMAIN S.fr
N(f) == NRows(S.fr[f])
Cols(f) == Names(S.fr[f])
G(x) == x \in Group

SeqsUpTo(n, k) == UNION {[1..m -> 1..n] : m \in 0..k}
Idx(n) == IF Rich THEN SeqsUpTo(n, 2) \cup {ReverseIdx(n), Ident(n) \o Ident(n)}
          ELSE {s \in {<<>>, <<n>>, <<n, 1>>, <<2, 2, 1>>, <<2, 3, 1>>} : Rng(s) \subseteq 1..n}
Bounds(n) == IF Rich THEN {<<a, b>> : a \in (-(n+1))..n, b \in (-(n+1))..n}
             ELSE {<<a, b>> \in {<<0, 1>>, <<1, n>>, <<n, 0>>, <<1, -1>>, <<2, 1>>} : a <= n /\ b <= n}
MasksOf(n) == IF Rich THEN [1..n -> BOOLEAN] ELSE {[j \in 1..n |-> j # 2], [j \in 1..n |-> j = 1]}
ColSets(f) == IF Rich THEN SUBSET Cols(f) ELSE {{c} : c \in Cols(f)}
ToList(X) == SetToSeq(X)

Views == \E f \in Ids :
  \/ G("View") /\ Do([op |-> "View", f |-> nx, src |-> f], OpView(S, nx, f), 1)
  \/ G("ShallowCopy") /\ Do([op |-> "ShallowCopy", f |-> nx, src |-> f], OpShallowCopy(S, nx, f), 1)
  \/ G("IndexView") /\ \E i \in Idx(N(f)) : Do([op |-> "IndexView", f |-> nx, src |-> f, idx |-> i], OpIndexView(S, nx, f, i), 1)
  \/ G("SliceView") /\ \E b \in Bounds(N(f)) :
       Do([op |-> "SliceView", f |-> nx, src |-> f, from |-> b[1], to |-> b[2]],
          OpIndexView(S, nx, f, SliceIdx(N(f), b[1], b[2])), 1)
  \/ G("MaskView") /\ \E m \in MasksOf(N(f)) :
       Do([op |-> "MaskView", f |-> nx, src |-> f, mask |-> m, via |-> "own"], OpIndexView(S, nx, f, MaskIdx(m)), 1)
  \/ G("ReverseView") /\ Do([op |-> "ReverseView", f |-> nx, src |-> f], OpIndexView(S, nx, f, ReverseIdx(N(f))), 1)
  \/ G("ColumnView") /\ \E X \in ColSets(f) :
       Do([op |-> "ColumnView", f |-> nx, src |-> f, cols |-> ToList(X)], OpColumnView(S, nx, f, X), 1)
  \* any permutation: the implementation chooses
  \/ G("ShuffleView") /\ \E p \in {Ident(N(f)), ReverseIdx(N(f))} :
       Do([op |-> "ShuffleView", f |-> nx, src |-> f], OpIndexView(S, nx, f, p), 1)
  \/ G("SampleView") /\ \E k \in 0..N(f) :
       Do([op |-> "SampleView", f |-> nx, src |-> f, k |-> k], OpIndexView(S, nx, f, Ident(k)), 1)

AscIdx(v) == SetToSortSeq(1..Len(v), LAMBDA i, j : v[i] < v[j] \/ (v[i] = v[j] /\ i < j))
Sorts == \E f \in Ids, c \in {"k"} :
  LET v == Vals(S, S.fr[f], c)
      p == TLCEval(AscIdx(v))
      n == Len(v)
  IN \/ G("SortedView") /\ Do([op |-> "SortedView", f |-> nx, src |-> f, col |-> c], OpIndexView(S, nx, f, p), 1)
     \/ G("TopView") /\ \E k \in 0..(n+1), asc \in BOOLEAN, srt \in BOOLEAN :
          Do([op |-> "TopView", f |-> nx, src |-> f, col |-> c, k |-> k, asc |-> asc, sorted |-> srt],
             OpIndexView(S, nx, f, SubSeq(IF asc THEN p ELSE Reverse(p), 1, Min2(k, n))), 1)

NewIds(k) == [i \in 1..k |-> nx + i - 1]
Splits == \E f \in Ids :
  \/ G("SplitView") /\ \E b \in 1..(N(f) + 1) : LET ix == SplitIdx(N(f), b) IN
       Do([op |-> "SplitView", src |-> f, b |-> b], OpSplit(S, NewIds(Len(ix)), f, ix), Len(ix))
  \/ G("SplitNView") /\ \E b \in 1..4 : LET ix == SplitNIdx(N(f), b) IN
       Do([op |-> "SplitNView", src |-> f, b |-> b], OpSplit(S, NewIds(Len(ix)), f, ix), Len(ix))
  \/ G("SplitTrainTest") /\ \E r \in {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>} :
       LET n == N(f)
           k == (n * r[1]) \div r[2]
       IN Do([op |-> "SplitTrainTest", src |-> f, num |-> r[1], den |-> r[2]],
             OpSplit(S, NewIds(2), f, <<Upto(1, n-k), Upto(n-k+1, n)>>), 2)

NewVal(t, s) == CASE t = "f" -> 64 * (500 + Len(h)) [] t = "i" -> 256 * (500 + Len(h)) [] t = "b" -> ONE
                  [] OTHER -> IF s THEN STR(10 + Len(h)) ELSE OBJ(10 + Len(h))
RowsToWrite(n) == IF n = 0 THEN {} ELSE IF Rich THEN {<<j>> : j \in 1..n} ELSE {<<1>>, <<n>>}
Writes == \E f \in Ids :
  \/ G("SetMany") /\ \E c \in Cols(f), r \in RowsToWrite(N(f)) :
       LET v == <<NewVal(S.fr[f].cols[c].t, S.fr[f].cols[c].s)>> IN
       Do([op |-> "SetMany", f |-> f, col |-> c, rows |-> r, vals |-> v],
          Write(S, [k \in 1..1 |-> S.fr[f].cols[c].c[r[k]]], v), 0)
  \/ G("GetAcc") /\ \E c \in Cols(f) : LET a == Cardinality(DOMAIN S.acc) + 1 IN
       Do([op |-> "GetAcc", f |-> f, a |-> a, col |-> c], [S EXCEPT !.acc = (a :> S.fr[f].cols[c].c) @@ @, !.w = {}], 0)
  \/ G("Overwrite") /\ \E c \in Cols(f) \cup {"z"}, t \in {"f", "s"} :
       LET old  == c \in Cols(f) /\ S.fr[f].cols[c].t = "o"
           vals == [j \in 1..N(f) |-> NewVal(IF t = "s" THEN "o" ELSE t, TRUE)]
       IN (old => S.fr[f].cols[c].s = (t = "s")) /\
          Do([op |-> "Overwrite", f |-> f, col |-> c, t |-> IF t = "s" THEN "o" ELSE t, s |-> t = "s", vals |-> vals, api |-> ""],
             OpOverwrite(S, f, IF t = "s" THEN "o" ELSE t, t = "s", c, vals), 0)
AccWrites == \E a \in DOMAIN S.acc : G("AccSet") /\ Len(S.acc[a]) > 0 /\
  \* the type of the column is that of the value of the cell
  LET x == S.acc[a][1]
      old == S.heap[x]
      v == <<IF old = NIL \/ old >= 700000000 THEN STR(10 + Len(h)) ELSE 64 * (500 + Len(h))>>
  IN Do([op |-> "AccSet", a |-> a, rows |-> <<1>>, vals |-> v], Write(S, <<x>>, v), 0)

Detaches == \E f \in Ids :
  \/ G("Copy") /\ Do([op |-> "Copy", f |-> nx, src |-> f], OpCopy(S, nx, f), 1)
  \/ G("DetachedView") /\ \E X \in ColSets(f) \cup {{}} :
       Do([op |-> "DetachedView", f |-> nx, src |-> f, cols |-> ToList(X)], OpDetachedView(S, nx, f, X), 1)
  \/ G("Unshare") /\ \E X \in ColSets(f) \cup {{}} :
       LET names == IF X = {} THEN Cols(f) ELSE X IN
       \E kept \in {{}, MayKeep(S, f, names)} :
         Do([op |-> "Unshare", f |-> f, cols |-> ToList(X)], OpUnshare(S, f, names, kept), 0)

Structs == \E f \in Ids :
  \/ G("Alloc") /\ \E t \in {"f", "s"}, X \in {{"z"}, {"a"}, {"b"}} :
       Do([op |-> "Alloc", f |-> f, t |-> IF t = "s" THEN "o" ELSE t, s |-> t = "s", cols |-> ToList(X)],
          OpAlloc(S, f, IF t = "s" THEN "o" ELSE t, t = "s", X), 0)
  \/ G("Drop") /\ \E c \in Cols(f) : Do([op |-> "Drop", f |-> f, cols |-> <<c>>], OpDrop(S, f, {c}), 0)
  \/ G("Rename") /\ \E a \in Cols(f), b \in {"a", "b", "z"} :
       Do([op |-> "Rename", f |-> f, a |-> a, b |-> b], OpRename(S, f, a, b), 0)
  \/ G("Convert") /\ \E t \in {"i", "b"} : LET X == ColsOf(S.fr[f], t) IN
       X # {} /\ Do([op |-> "Convert", f |-> f, t |-> t, cols |-> ToList(X)], OpConvert(S, f, X), 0)
  \/ G("SetMaxCPU") /\ \E c \in {-1, 1, 3} :
       Do([op |-> "SetMaxCPU", f |-> f, cpu |-> c], OpSetCPU(S, f, c, 8), 0)

Same == [S EXCEPT !.w = {}]
Pairs == {<<f, g>> : f \in Ids, g \in Ids}
Concats ==
  \/ G("ColumnConcatView") /\ \E p \in Pairs :
       LET o == [op |-> "ColumnConcatView", f |-> nx, fs |-> p] IN
       \/ ConcatOk(S, p) /\ (SameOrg(S, p) \/ \A i, j \in 1..2 : S.fr[p[i]].rows = S.fr[p[j]].rows) /\ Do(o, OpColumnConcat(S, nx, p), 1)
       \/ ~(ConcatOk(S, p) /\ SameOrg(S, p)) /\ Do(o, Same, 1)
  \/ G("ColumnCopyConcat") /\ \E p \in Pairs :
       Do([op |-> "ColumnCopyConcat", f |-> nx, fs |-> p], IF ConcatOk(S, p) THEN OpColumnCopyConcat(S, nx, p) ELSE Same, 1)
  \/ G("ColumnSmartConcat") /\ \E p \in Pairs :
       LET o == [op |-> "ColumnSmartConcat", f |-> nx, fs |-> p] IN
       IF ConcatOk(S, p) THEN Do(o, IF SameOrg(S, p) THEN OpColumnConcat(S, nx, p) ELSE OpColumnCopyConcat(S, nx, p), 1)
       ELSE Do(o, Same, 1)
  \/ G("RowConcat") /\ \E p \in Pairs :
       Do([op |-> "RowConcat", f |-> nx, fs |-> p], IF RowConcatOk(S, p) THEN OpRowConcat(S, nx, p, 1) ELSE Same, 1)

(* two selections of the rows of two columns, then their concatenation: all pairs of selections *)
Pick == SeqsUpTo(8, 2) \cup SeqsUpTo(3, 3) \cup IF Rich THEN SeqsUpTo(4, 3) ELSE {}
ConcatSelections == G("consel") /\
  CASE Len(h) = 1 -> Do([op |-> "ColumnView", f |-> 2, src |-> 1, cols |-> <<"a">>], OpColumnView(S, 2, 1, {"a"}), 1)
    [] Len(h) = 2 -> Do([op |-> "ColumnView", f |-> 3, src |-> 1, cols |-> <<"b">>], OpColumnView(S, 3, 1, {"b"}), 1)
    [] Len(h) = 3 -> \E i \in Pick : Do([op |-> "IndexView", f |-> 4, src |-> 2, idx |-> i], OpIndexView(S, 4, 2, i), 1)
    [] Len(h) = 4 -> \E i \in Pick : Len(i) = N(4) /\
         Do([op |-> "IndexView", f |-> 5, src |-> 3, idx |-> i], OpIndexView(S, 5, 3, i), 1)
    [] Len(h) = 5 ->
         \/ LET o == [op |-> "ColumnConcatView", f |-> 6, fs |-> <<4, 5>>] IN
            IF S.fr[4].rows = S.fr[5].rows THEN Do(o, OpColumnConcat(S, 6, <<4, 5>>), 1) ELSE Do(o, Same, 1)
         \/ LET o == [op |-> "ColumnSmartConcat", f |-> 6, fs |-> <<4, 5>>] IN
            Rich /\ Do(o, OpColumnCopyConcat(S, 6, <<4, 5>>), 1)
    [] OTHER -> FALSE

(* readers do not change anything; one step reads everything *)
Readers == \E f \in Ids :
  LET F  == S.fr[f]
      nm == ToList(ColsOf(F, "f") \cup ColsOf(F, "i") \cup ColsOf(F, "b"))
  IN
  \/ G("Dense") /\ nm # <<>> /\ N(f) > 0 /\ \E bt \in {1, 2} :
       Do([op |-> "Dense", f |-> f, bt |-> bt, cols |-> ToList({"a", "c", "d"})], Same, 0)
  \/ G("Iterate") /\ \E it \in {1, 2}, full \in BOOLEAN :
       Do([op |-> "Iterate", f |-> f, it |-> it, cols |-> ToList({"a", "c", "d"}), full |-> full, want |-> 1, check |-> TRUE], Same, 0)
  \/ G("CopyValues") /\ \E c \in Cols(f) : Do([op |-> "CopyValues", f |-> f, col |-> c], Same, 0)
  \/ G("VecDense") /\ N(f) > 0 /\ \E cp \in BOOLEAN : Do([op |-> "VecDense", f |-> f, col |-> "a", copy |-> cp], Same, 0)
  \/ G("LabelToInt") /\ Do([op |-> "LabelToInt", f |-> f, col |-> "b"], Same, 0)
  \/ G("SharedIndex") /\ Do([op |-> "SharedIndex", f |-> f, col |-> "a"], Same, 0)

(* masks: contents are those of the last call, unless kept separate *)
BadMask(n) == [j \in 1..n |-> FALSE]
Masks ==
  \/ \E f \in Ids :
       \/ G("SafeMasking") /\ \E on \in BOOLEAN :
            Do([op |-> "SafeMasking", f |-> f, on |-> on], [S EXCEPT !.fr[f].tsm = on, !.w = {}], 0)
       \/ G("Mask") /\ \E z \in BOOLEAN : LET m == Len(h) IN
            Do([op |-> "Mask", f |-> f, m |-> m, zero |-> z],
               [S EXCEPT !.msk = (m :> [v |-> BadMask(N(f)), ts |-> S.fr[f].tsm]) @@ Restr(@, {x \in DOMAIN S.msk : S.msk[x].ts}), !.w = {}], 0)
  \/ G("MaskSet") /\ \E m \in DOMAIN S.msk : LET v == [j \in 1..Len(S.msk[m].v) |-> j % 2 = m % 2] IN
       v # S.msk[m].v /\ Do([op |-> "MaskSet", m |-> m, v |-> v], [S EXCEPT !.msk[m].v = v, !.w = {}], 0)
  \/ G("MaskCheck") /\ \E k \in {1} : LET ms == ToList({m \in DOMAIN S.msk : S.msk[m].ts}) IN
       /\ h[Len(h)].op # "MaskCheck" /\ ms # <<>>
       /\ Do([op |-> "MaskCheck", ms |-> [i \in 1..Len(ms) |-> [m |-> ms[i]]]], Same, 0)

(* strings as in the harness: see lib/plans.py for the texts of the tokens *)
HashFn == [x \in {STR(k) : k \in 0..40} |-> 1200000000 + (x - 700000000)]
Texts ==
  \/ \E f \in Ids : G("HashStringsView") /\ \E X \in SUBSET StrCols(S.fr[f]) : X # {} /\
       Do([op |-> "HashStringsView", f |-> nx, src |-> f, cols |-> ToList(X)], OpHash(S, nx, f, X, HashFn), 1)
  \/ \E f \in Ids : G("Encode") /\ \E e \in {"utf8", "latin1", "utf16"} : Do([op |-> "Encode", f |-> f, enc |-> e], Same, 0)

Next == Views \/ Sorts \/ Splits \/ Writes \/ AccWrites \/ Detaches \/ Structs \/ Concats \/ ConcatSelections \/ Readers \/ Masks \/ Texts
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
TypeOK ==
  \A f \in Ids : LET F == S.fr[f] IN
    /\ F.anc \subseteq F.lin /\ f \notin F.lin
    /\ \A c \in Names(F) :
         /\ Len(F.cols[c].c) = NRows(F)
         /\ Rng(F.cols[c].c) \subseteq 1..Len(S.heap)
         /\ F.cols[c].t \in {"f", "i", "b", "o"} /\ (F.cols[c].s => F.cols[c].t = "o")
(* C07: a cell belongs to columns of one type only, and is shown once per row identity *)
CellTypes == \A f, g \in Ids : \A c \in Names(S.fr[f]), d \in Names(S.fr[g]) :
               Rng(S.fr[f].cols[c].c) \cap Rng(S.fr[g].cols[d].c) # {} => S.fr[f].cols[c].t = S.fr[g].cols[d].t
RowAligned == \A f \in Ids : \A c \in Names(S.fr[f]) : \A i, j \in 1..NRows(S.fr[f]) :
                (S.fr[f].cols[c].c[i] = S.fr[f].cols[c].c[j]) <=> (S.fr[f].rows[i] = S.fr[f].rows[j])
\* columns of a frame never overlap
ColumnsApart == \A f \in Ids : \A c, d \in Names(S.fr[f]) :
                  c # d => Rng(S.fr[f].cols[c].c) \cap Rng(S.fr[f].cols[d].c) = {}
(* a column either shares all its cells of a common row with another one or none: sharing is between columns *)
Inv == TypeOK /\ CellTypes /\ RowAligned /\ ColumnsApart

L == h'[Len(h')]
Is(ops) == Len(h') > Len(h) /\ L.op \in ops
Old == DOMAIN S.fr
KeepsOthers(X) == \A g \in (DOMAIN S'.fr \cap Old) \ X : Shown(S, g) = Shown(S', g)
Got(f, c) == Vals(S', S'.fr[f], c)
Had(f, c) == Vals(S, S.fr[f], c)
SelOf(o) ==
  LET n == NRows(S.fr[o.src]) IN
  CASE o.op = "IndexView"   -> o.idx
    [] o.op = "SliceView"   -> SliceIdx(n, o.from, o.to)
    [] o.op = "MaskView"    -> MaskIdx(o.mask)
    [] o.op = "ReverseView" -> ReverseIdx(n)
    [] OTHER                -> Ident(n)

(* C01 *)
ViewsSelect == [][
  /\ Is({"View", "ShallowCopy", "IndexView", "SliceView", "MaskView", "ReverseView", "ColumnView", "ShuffleView", "SampleView"})
       => KeepsOthers({})
  /\ Is({"View", "ShallowCopy", "IndexView", "SliceView", "MaskView", "ReverseView"}) =>
       /\ Names(S'.fr[L.f]) = Names(S.fr[L.src])
       /\ \A c \in Names(S.fr[L.src]) : LET i == SelOf(L) IN
            Got(L.f, c) = [j \in 1..Len(i) |-> Had(L.src, c)[i[j]]]
  \* a slice from the reversed frame when from > to
  /\ Is({"SliceView"}) => LET n == NRows(S.fr[L.src]) IN \A c \in Names(S.fr[L.src]) :
       LET a == IF L.from < 0 THEN n + 1 + L.from ELSE L.from
           b == IF L.to < 0 THEN n + 1 + L.to ELSE L.to
           u == Reverse(Had(L.src, c))
       IN Got(L.f, c) = IF a <= b THEN SubSeq(Had(L.src, c), a + 1, b) ELSE SubSeq(u, b + 1, a)
  /\ Is({"MaskView"}) => \A c \in Names(S.fr[L.src]) :
       LET ps == [j \in 1..Len(L.mask) |-> <<L.mask[j], Had(L.src, c)[j]>>]
           kept == SelectSeq(ps, LAMBDA p : p[1])
       IN Got(L.f, c) = [j \in 1..Len(kept) |-> kept[j][2]]
  /\ Is({"ColumnView"}) =>
       /\ Names(S'.fr[L.f]) = IF L.cols = <<>> THEN Names(S.fr[L.src]) ELSE Rng(L.cols)
       /\ \A c \in Names(S'.fr[L.f]) : Got(L.f, c) = Had(L.src, c)
  ]_vars

(* C02 *)
PieceIds == [k \in 1..(nx' - nx) |-> nx + k - 1]
SplitsPartition == [][
  Is({"SplitView", "SplitNView", "SplitTrainTest"}) =>
    /\ KeepsOthers({})
    /\ \A c \in Names(S.fr[L.src]) : FlattenSeq([k \in 1..Len(PieceIds) |-> Got(PieceIds[k], c)]) = Had(L.src, c)
    /\ \A k \in 1..Len(PieceIds) : Names(S'.fr[PieceIds[k]]) = Names(S.fr[L.src])
    /\ L.op = "SplitNView" => Len(PieceIds) = L.b
    /\ L.op = "SplitView" => \A k \in 1..(Len(PieceIds) - 1) : NRows(S'.fr[PieceIds[k]]) = L.b
    /\ L.op = "SplitView" => NRows(S'.fr[PieceIds[Len(PieceIds)]]) <= L.b
    /\ L.op = "SplitTrainTest" => NRows(S'.fr[PieceIds[2]]) = (NRows(S.fr[L.src]) * L.num) \div L.den
  ]_vars

(* C03 *)
Bag(s) == [x \in Rng(s) |-> Cardinality({j \in 1..Len(s) : s[j] = x})]
SortsOrder == [][
  /\ Is({"SortedView", "TopView"}) => KeepsOthers({})
  /\ Is({"SortedView"}) =>
       /\ \A j \in 1..(NRows(S'.fr[L.f]) - 1) : Got(L.f, L.col)[j] <= Got(L.f, L.col)[j + 1]
       /\ Bag(S'.fr[L.f].rows) = Bag(S.fr[L.src].rows)
  /\ Is({"TopView"}) =>
       LET u == Got(L.f, L.col)
           v == Had(L.src, L.col)
       IN /\ Len(u) = Min2(L.k, Len(v))
          \* as many better values outside as none
          /\ \A x \in Rng(u) : Cardinality({j \in 1..Len(v) : IF L.asc THEN v[j] < x ELSE v[j] > x}) < Max2(Len(u), 1)
          /\ \A x \in Rng(u) : Cardinality({j \in 1..Len(u) : u[j] = x}) <= Cardinality({j \in 1..Len(v) : v[j] = x})
          /\ L.sorted => \A j \in 1..(Len(u) - 1) : IF L.asc THEN u[j] <= u[j+1] ELSE u[j] >= u[j+1]
  ]_vars

(* C04: exactly the cells written change, whoever shows them *)
WriteOps == {"SetMany", "AccSet"}
Written == IF L.op = "AccSet" THEN {S.acc[L.a][L.rows[1]]} ELSE {S.fr[L.f].cols[L.col].c[L.rows[1]]}
WritesReach == [][
  Is(WriteOps) =>
    /\ DOMAIN S'.fr = DOMAIN S.fr
    /\ \A g \in Old : S'.fr[g] = S.fr[g]
    /\ \A g \in Old : \A c \in Names(S.fr[g]) : \A j \in 1..NRows(S.fr[g]) :
         Got(g, c)[j] = IF S.fr[g].cols[c].c[j] \in Written THEN L.vals[1] ELSE Had(g, c)[j]
    \* all views of a frame that still have the column under that name show it
    /\ L.op = "SetMany" =>
         \A g \in Old : \A c \in Names(S.fr[g]) : \A i \in 1..NRows(S.fr[g]) :
           (g \in S.fr[L.f].anc \/ L.f \in S.fr[g].anc) /\ c = L.col /\ c \in Names(S.fr[L.f])
             /\ S.fr[g].rows[i] = S.fr[L.f].rows[L.rows[1]]
             /\ Rng(S.fr[g].cols[c].c) \cap Rng(S.fr[L.f].cols[c].c) # {}
           => Got(g, c)[i] = L.vals[1]
  ]_vars

(* C05 *)
Apart(f, c) == \A g \in DOMAIN S'.fr \ {f} : Rng(S'.fr[f].cols[c].c) \cap CellsOf(S'.fr[g]) = {}
CopiesApart == [][
  /\ Is({"Copy", "RowConcat", "ColumnCopyConcat"}) /\ L.f \in DOMAIN S'.fr => \A c \in Names(S'.fr[L.f]) : Apart(L.f, c)
  /\ Is({"Copy"}) => Shown(S', L.f) = Shown(S, L.src) /\ KeepsOthers({})
  /\ Is({"DetachedView"}) =>
       /\ \A c \in Names(S'.fr[L.f]) : IF L.cols = <<>> \/ c \in Rng(L.cols) THEN Apart(L.f, c)
                                        ELSE S'.fr[L.f].cols[c] = S.fr[L.src].cols[c]
       /\ Shown(S', L.f) = Shown(S, L.src) /\ KeepsOthers({})
  /\ Is({"Unshare"}) =>
       /\ KeepsOthers({})
       /\ Shown(S', L.f) = Shown(S, L.f)
       /\ \A c \in Names(S'.fr[L.f]) :
            IF L.cols = <<>> \/ c \in Rng(L.cols)
            THEN \A g \in DOMAIN S'.fr \ {L.f} : L.f \notin S'.fr[g].lin =>
                   Rng(S'.fr[L.f].cols[c].c) \cap CellsOf(S'.fr[g]) = {}
            ELSE S'.fr[L.f].cols[c] = S.fr[L.f].cols[c]
  ]_vars

(* C06 *)
StructOps == {"Alloc", "Drop", "Rename", "Convert", "SetMaxCPU"}
StructStays == [][
  /\ Is(StructOps) => KeepsOthers({L.f})
  \* only views of f itself are no longer specified
  /\ Is(StructOps \cup {"Unshare", "Overwrite"}) => \A g \in Old \ DOMAIN S'.fr : L.f \in S.fr[g].anc
  /\ Is({"Overwrite"}) => /\ (L.col \notin Names(S.fr[L.f]) => KeepsOthers({L.f}))
                          /\ (NRows(S.fr[L.f]) > 0 => Rng(Got(L.f, L.col)) = {L.vals[1]})
  /\ Is({"Rename"}) => Got(L.f, L.b) = Had(L.f, L.a)
                       /\ Names(S'.fr[L.f]) = (Names(S.fr[L.f]) \ {L.a}) \cup {L.b}
  /\ Is({"Alloc"}) => \A c \in Rng(L.cols) : Rng(Got(L.f, c)) \subseteq {Zero(L.t)}
  ]_vars

(* C07: settings follow the data *)
Follows == [][
  Len(h') > Len(h) /\ "src" \in DOMAIN L /\ "f" \in DOMAIN L =>
    /\ S'.fr[L.f].cpu = S.fr[L.src].cpu /\ S'.fr[L.f].enc = S.fr[L.src].enc
    /\ L.op # "HashStringsView" => \A c \in Names(S'.fr[L.f]) : S'.fr[L.f].cols[c].t = S.fr[L.src].cols[c].t
                                                               /\ S'.fr[L.f].cols[c].s = S.fr[L.src].cols[c].s
  ]_vars

(* C08 *)
ConcatAligned == [][
  Is({"ColumnConcatView", "ColumnSmartConcat", "ColumnCopyConcat"}) =>
    /\ KeepsOthers({})
    /\ L.f \in DOMAIN S'.fr =>
         /\ Names(S'.fr[L.f]) = Names(S.fr[L.fs[1]]) \cup Names(S.fr[L.fs[2]])
         /\ \A i \in {1, 2} : \A c \in Names(S.fr[L.fs[i]]) : Got(L.f, c) = Had(L.fs[i], c)
    /\ L.f \notin DOMAIN S'.fr /\ L.op # "ColumnConcatView" =>
         \/ NRows(S.fr[L.fs[1]]) # NRows(S.fr[L.fs[2]])
         \/ Names(S.fr[L.fs[1]]) \cap Names(S.fr[L.fs[2]]) # {}
  ]_vars

(* C09 *)
RowsAppended == [][
  Is({"RowConcat"}) =>
    /\ KeepsOthers({})
    /\ L.f \in DOMAIN S'.fr => \A c \in Names(S'.fr[L.f]) : Got(L.f, c) = Had(L.fs[1], c) \o Had(L.fs[2], c)
    /\ L.f \notin DOMAIN S'.fr => \E c \in Names(S.fr[L.fs[1]]) : c \notin Names(S.fr[L.fs[2]])
                                     \/ S.fr[L.fs[2]].cols[c].t # S.fr[L.fs[1]].cols[c].t
  ]_vars

(* C10 *)
MaskSizes == \A m \in DOMAIN S.msk : \E f \in Ids : Len(S.msk[m].v) = N(f)
MasksKeep == [][\A m \in DOMAIN S.msk : S.msk[m].ts => m \in DOMAIN S'.msk
                 /\ (S'.msk[m] = S.msk[m] \/ (Is({"MaskSet"}) /\ L.m = m))]_vars

(* C11 *)
LabelsOk == \A f \in Ids : \A c \in StrCols(S.fr[f]) :
  LET v == Vals(S, S.fr[f], c)
      e == LabelInts(v)
  IN /\ \A i \in 1..Len(v) : (e[i] = -1) <=> (v[i] = NIL)
     /\ \A i, j \in 1..Len(v) : (e[i] = e[j]) <=> (v[i] = v[j])
     /\ {e[i] : i \in 1..Len(v)} \ {-1} = 0..(Cardinality(Rng(v) \ {NIL}) - 1)
     /\ \A i, j \in 1..Len(v) : (i < j /\ e[i] >= 0 /\ e[j] > e[i]) \/ TRUE
     /\ \A j \in 1..Len(v) : e[j] > 0 => \E i \in 1..(j-1) : e[i] = e[j] - 1
ReadersKeep == [][Is({"Dense", "Iterate", "CopyValues", "VecDense", "LabelToInt", "SharedIndex"}) =>
                    KeepsOthers({}) /\ S'.heap = S.heap]_vars

(* C16 *)
HashIsolated == [][
  Is({"HashStringsView"}) =>
    /\ KeepsOthers({})
    /\ \A c \in Names(S.fr[L.src]) :
         IF c \in Rng(L.cols)
         THEN /\ S'.fr[L.f].cols[c].t = "i" /\ ~S'.fr[L.f].cols[c].s
              /\ \A i, j \in 1..NRows(S.fr[L.src]) : (Got(L.f, c)[i] = Got(L.f, c)[j]) <=> (Had(L.src, c)[i] = Had(L.src, c)[j])
              /\ \A i \in 1..NRows(S.fr[L.src]) : (Got(L.f, c)[i] < 0) <=> (Had(L.src, c)[i] = NIL)
         ELSE S'.fr[L.f].cols[c] = S.fr[L.src].cols[c]
  ]_vars
=============================================================================
