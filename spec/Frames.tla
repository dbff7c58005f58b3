------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* The dataframes of ml-essentials: cells, rows, columns, frames and the   *)
(* effect of every operation of package dataframe on them.                 *)
(*                                                                         *)
(* A CELL is one memory location holding a value.  A FRAME is a sequence   *)
(* of row identities plus, per column name, the type of the column, its    *)
(* string marking and the sequence of cells it shows, aligned with the     *)
(* rows.  Sharing of data between frames is sharing of cells, so that      *)
(* views, aliasing, copies and detaching all reduce to which cells a frame *)
(* is made of.  Values are integers (tokens):                              *)
(*   - a number x on the grid of 1/256 is 256*x; true is 256, false is 0;  *)
(*   - NAN, NIL (missing object) and other values have reserved tokens.    *)
(*                                                                         *)
(* Everything here is a pure operator on a state record S, used both by    *)
(* the model-checked specification (FramesMC) and by the trace             *)
(* specification (Trace), so both speak of the same transitions.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NAN  == -2000000000
NIL  == 699999999
ONE  == 256
MISSINT == -256

Rng(s)    == {s[i] : i \in 1..Len(s)}
Max2(a,b) == IF a > b THEN a ELSE b
Min2(a,b) == IF a < b THEN a ELSE b
Abs(x)    == IF x < 0 THEN -x ELSE x
(* the nearest number of single precision (24 bits, half to even) *)
RECURSIVE Ulp(_, _)
Ulp(a, u) == IF a < 16777216 * u THEN u ELSE Ulp(a, 2 * u)
Single(x) ==
  IF x = NAN \/ Abs(x) < 16777216 THEN x
  ELSE LET a == Abs(x)
           u == Ulp(a, 1)
           q == a \div u
           r == a % u
           n == IF 2 * r > u \/ (2 * r = u /\ q % 2 = 1) THEN q + 1 ELSE q
       IN IF x < 0 THEN -(n * u) ELSE n * u
Ident(n)  == [j \in 1..n |-> j]
Upto(a,b) == IF b < a THEN <<>> ELSE [j \in 1..(b-a+1) |-> a+j-1]
\* functions restricted to a set of names
Restr(fn, names) == [x \in (DOMAIN fn \cap names) |-> fn[x]]
Less(fn, names)  == [x \in (DOMAIN fn \ names) |-> fn[x]]
IsPerm(p, n) == /\ Len(p) = n /\ Rng(p) = 1..n
IsInjSeq(s)  == Cardinality(Rng(s)) = Len(s)
NullFn == [x \in {} |-> 0]

Zero(t) == IF t = "o" THEN NIL ELSE 0

(***************************************************************************)
(* The state.                                                              *)
(*   heap : value of every cell      fr  : the live frames                 *)
(*   rc   : number of row identities handed out                            *)
(*   w    : cells written by the last operation                            *)
(*   acc  : live column accessors    msk : live masks                      *)
(*   cmp  : trained components       hf  : string hashes seen so far       *)
(***************************************************************************)
InitState == [heap |-> <<>>, fr |-> NullFn, rc |-> 0, w |-> {},
              acc |-> NullFn, msk |-> NullFn, cmp |-> NullFn, hf |-> NullFn]

(* anc: frames whose structure this frame may still share (views only);    *)
(* lin: frames this frame was derived from while sharing data;             *)
(* org: frame of which this one is a column subset (itself by default).    *)
NewFrame(rows, cols, cpu, enc, id) ==
  [rows |-> rows, cols |-> cols, cpu |-> cpu, enc |-> enc, tsm |-> FALSE,
   anc |-> {}, lin |-> {}, org |-> id]

NRows(F)      == Len(F.rows)
Names(F)      == DOMAIN F.cols
ColsOf(F, t)  == {c \in Names(F) : F.cols[c].t = t}
StrCols(F)    == {c \in Names(F) : F.cols[c].s}
Vals(S, F, c) == [j \in 1..Len(F.cols[c].c) |-> S.heap[F.cols[c].c[j]]]
CellsOf(F)    == UNION {Rng(F.cols[c].c) : c \in Names(F)}
Shown(S, f)   == LET F == S.fr[f]
                 IN [n |-> NRows(F), cols |-> [c \in Names(F) |->
                      [t |-> F.cols[c].t, s |-> F.cols[c].s, v |-> Vals(S, F, c)]]]

(* a position that stands for all those showing the same row, and the last   *)
(* one of them                                                               *)
RepPos(rows)  == IF IsInjSeq(rows) THEN Ident(Len(rows))
                 ELSE TLCEval([j \in 1..Len(rows) |-> CHOOSE i \in 1..Len(rows) : rows[i] = rows[j]])
SetMax(X)     == CHOOSE j \in X : \A k \in X : k <= j
LastPos(rows) == IF IsInjSeq(rows) THEN Ident(Len(rows))
                 ELSE LET last == TLCEval([r \in Rng(rows) |-> SetMax({j \in 1..Len(rows) : rows[j] = r})])
                      IN TLCEval([j \in 1..Len(rows) |-> last[rows[j]]])

(***************************************************************************)
(* Building blocks.                                                        *)
(***************************************************************************)
(* add (or replace) columns made of fresh cells, one per distinct row;      *)
(* specs is a sequence of [n, t, s, v], v given per position, last one wins *)
WithCols(heap, F, specs) ==
  LET n     == NRows(F)
      rep   == TLCEval(RepPos(F.rows))
      last  == TLCEval(LastPos(F.rows))
      vals(k) == [j \in 1..n |-> specs[k].v[last[j]]]
      names == {specs[k].n : k \in 1..Len(specs)}
      kOf(c) == CHOOSE k \in 1..Len(specs) : specs[k].n = c /\ \A m \in (k+1)..Len(specs) : specs[m].n # c
      base(k) == Len(heap) + (k-1) * n
      new   == [c \in names |-> LET k == kOf(c) IN
                 [t |-> specs[k].t, s |-> specs[k].s, c |-> TLCEval([j \in 1..n |-> base(k) + rep[j]])]]
  IN [heap |-> TLCEval(heap \o FlattenSeq([k \in 1..Len(specs) |-> TLCEval(vals(k))])),
      F    |-> [F EXCEPT !.cols = TLCEval(new @@ @)]]

(* the columns of F in the form WithCols wants them, values being those shown *)
AsSpecs(S, F, names) ==
  LET ns == SetToSeq(names)
  IN [k \in 1..Len(ns) |-> [n |-> ns[k], t |-> F.cols[ns[k]].t, s |-> F.cols[ns[k]].s,
                            v |-> TLCEval(Vals(S, F, ns[k]))]]

(* the rows at positions idx *)
Select(F, idx) ==
  [F EXCEPT !.rows = TLCEval([j \in 1..Len(idx) |-> F.rows[idx[j]]]),
            !.cols = TLCEval([c \in Names(F) |-> [F.cols[c] EXCEPT
                         !.c = [j \in 1..Len(idx) |-> F.cols[c].c[idx[j]]]]])]

(* a view of frame src keeps everything src has *)
ViewOf(S, src)       == LET F == S.fr[src] IN [F EXCEPT !.anc = @ \cup {src}, !.lin = @ \cup {src}]
SelView(S, src, id, idx) == [Select(ViewOf(S, src), idx) EXCEPT !.org = id]
Add(S, id, F)        == [S EXCEPT !.fr = (id :> F) @@ @, !.w = {}]
RECURSIVE AddAll(_, _, _)
AddAll(S, ids, Fs)   == IF ids = <<>> THEN [S EXCEPT !.w = {}]
                        ELSE AddAll(Add(S, Head(ids), Head(Fs)), Tail(ids), Tail(Fs))

(* the structure of f changes: views still sharing it become unspecified *)
Descendants(S, f)    == {g \in DOMAIN S.fr : f \in S.fr[g].anc}
Restruct(S, f, heap, F) ==
  [S EXCEPT !.heap = heap, !.fr = Less((f :> F) @@ @, Descendants(S, f)), !.w = {}]

(* write values to cells: the last value written to a cell stays *)
WriteSeq(heap, cells, vals) ==
  LET new == TLCEval([x \in Rng(cells) |-> vals[IF IsInjSeq(cells) THEN CHOOSE j \in 1..Len(cells) : cells[j] = x
                                                ELSE SetMax({j \in 1..Len(cells) : cells[j] = x})]])
  IN TLCEval([x \in 1..Len(heap) |-> IF x \in DOMAIN new THEN new[x] ELSE heap[x]])
Write(S, cells, vals) ==
  [S EXCEPT !.heap = WriteSeq(S.heap, cells, vals), !.w = Rng(cells)]

(***************************************************************************)
(* Creation.                                                               *)
(***************************************************************************)
FreshRows(S, n) == [j \in 1..n |-> S.rc + j]
(* specs: all columns of the new frame, n: its number of rows *)
Create(S, id, n, specs, cpu, enc) ==
  LET F == NewFrame(TLCEval(FreshRows(S, n)), NullFn, cpu, enc, id)
      r == WithCols(S.heap, F, specs)
  IN [S EXCEPT !.heap = r.heap, !.rc = @ + n, !.fr = (id :> r.F) @@ @, !.w = {}]

(***************************************************************************)
(* Views.                                                                  *)
(***************************************************************************)
OpView(S, id, src)        == Add(S, id, ViewOf(S, src))
OpShallowCopy(S, id, src) == Add(S, id, [ViewOf(S, src) EXCEPT !.anc = {}])
OpIndexView(S, id, src, idx) == Add(S, id, SelView(S, src, id, idx))

(* positions selected by SliceView(from, to): negative bounds count from the *)
(* end, and from > to selects from the reversed frame                         *)
SliceIdx(n, from, to) ==
  LET a == IF from < 0 THEN from + n + 1 ELSE from
      b == IF to < 0 THEN to + n + 1 ELSE to
  IN IF a <= b THEN Upto(a+1, b) ELSE [j \in 1..(a-b) |-> n + 1 - (b + j)]
MaskIdx(mask)    == SelectSeq(Ident(Len(mask)), LAMBDA j : mask[j])
ReverseIdx(n)    == [j \in 1..n |-> n + 1 - j]
OpColumnView(S, id, src, names) ==
  LET V == ViewOf(S, src)
  IN Add(S, id, IF names = {} THEN V ELSE [V EXCEPT !.cols = Restr(@, names)])

(* splits *)
NPieces(n, b)    == IF n = 0 THEN 1 ELSE (n + b - 1) \div b
SplitIdx(n, b)   == [k \in 1..NPieces(n, b) |-> Upto((k-1)*b + 1, Min2(k*b, n))]
SplitNIdx(n, m)  == LET b == (n + m - 1) \div m
                    IN [k \in 1..m |-> IF n = 0 THEN <<>> ELSE Upto((k-1)*b + 1, Min2(k*b, n))]
OpSplit(S, ids, src, idxs) ==
  AddAll(S, ids, [k \in 1..Len(ids) |-> SelView(S, src, ids[k], idxs[k])])

(* order-correctness of SortedView and TopView; v: values, p: permutation *)
SortedBy(v, p)   == \A i \in 1..(Len(p)-1) : v[p[i]] <= v[p[i+1]]
TopOk(v, p, n, asc, sorted) ==
  /\ Len(p) = Min2(n, Len(v)) /\ IsInjSeq(p) /\ Rng(p) \subseteq 1..Len(v)
  /\ \A i \in Rng(p), k \in (1..Len(v)) \ Rng(p) : IF asc THEN v[i] <= v[k] ELSE v[i] >= v[k]
  /\ sorted => IF asc THEN SortedBy(v, p) ELSE SortedBy(v, Reverse(p))

(***************************************************************************)
(* Detaching and copying.                                                  *)
(***************************************************************************)
Detach(S, F, names) == WithCols(S.heap, F, AsSpecs(S, F, names \cap Names(F)))
OpDetachedView(S, id, src, names) ==
  LET V == ViewOf(S, src)
      r == Detach(S, V, IF names = {} THEN Names(V) ELSE names)
  IN [S EXCEPT !.heap = r.heap, !.fr = (id :> r.F) @@ @, !.w = {}]
(* Unshare must copy a column shared with a frame that was not derived from f *)
MustCopy(S, f, names) ==
  {c \in names \cap Names(S.fr[f]) :
     \E g \in DOMAIN S.fr \ {f} : /\ f \notin S.fr[g].lin
                                  /\ Rng(S.fr[f].cols[c].c) \cap CellsOf(S.fr[g]) # {}}
(* any other column that is still shared, with a frame or an accessor, may be kept as it is *)
MayKeep(S, f, names) ==
  {c \in (names \cap Names(S.fr[f])) \ MustCopy(S, f, names) :
     \/ \E g \in DOMAIN S.fr \ {f} : Rng(S.fr[f].cols[c].c) \cap CellsOf(S.fr[g]) # {}
     \/ \E a \in DOMAIN S.acc : Rng(S.fr[f].cols[c].c) \cap Rng(S.acc[a]) # {}}
OpUnshare(S, f, names, kept) ==
  LET F == S.fr[f]
      r == Detach(S, F, (IF names = {} THEN Names(F) ELSE names) \ kept)
  IN Restruct(S, f, r.heap, r.F)
OpCopy(S, id, src) ==
  LET F == S.fr[src]
      T == Create(S, id, NRows(F), AsSpecs(S, F, Names(F)), F.cpu, F.enc)
  IN [T EXCEPT !.fr[id].tsm = F.tsm]

(***************************************************************************)
(* Changes of structure and data.                                          *)
(***************************************************************************)
AllocSpecs(F, t, s, names) ==
  LET ns == SetToSeq(names)
  IN [k \in 1..Len(ns) |-> [n |-> ns[k], t |-> t, s |-> s, v |-> [j \in 1..NRows(F) |-> Zero(t)]]]
OpAlloc(S, f, t, s, names) ==
  LET r == WithCols(S.heap, S.fr[f], AllocSpecs(S.fr[f], t, s, names))
  IN Restruct(S, f, r.heap, r.F)
OpDrop(S, f, names) == Restruct(S, f, S.heap, [S.fr[f] EXCEPT !.cols = Less(@, names)])
OpRename(S, f, a, b) ==
  LET F == S.fr[f]
  IN Restruct(S, f, S.heap, [F EXCEPT !.cols = (b :> F.cols[a]) @@ Less(@, {a})])
(* numbers have the same token whatever their type *)
OpConvert(S, f, names) ==
  LET F == S.fr[f]
      sp == AsSpecs(S, F, names)
      r == WithCols(S.heap, F, [k \in 1..Len(sp) |-> [sp[k] EXCEPT !.t = "f"]])
  IN Restruct(S, f, r.heap, r.F)
(* Overwrite*: writes to an existing column of that type, else a new column *)
OpOverwrite(S, f, t, s, c, vals) ==
  LET F == S.fr[f]
  IN IF c \in Names(F) /\ F.cols[c].t = t
     THEN Write(S, F.cols[c].c, vals)
     ELSE LET r == WithCols(S.heap, F, <<[n |-> c, t |-> t, s |-> s, v |-> vals]>>)
          IN Restruct(S, f, r.heap, r.F)
OpSetCPU(S, f, cpu, ncpu) ==
  [S EXCEPT !.fr[f].cpu = IF cpu <= 0 \/ cpu >= ncpu THEN ncpu ELSE cpu, !.w = {}]

(***************************************************************************)
(* Concatenation.                                                          *)
(***************************************************************************)
Overlap(S, fs)  == \E i, j \in 1..Len(fs) : i < j /\ Names(S.fr[fs[i]]) \cap Names(S.fr[fs[j]]) # {}
SameSize(S, fs) == \A i \in 1..Len(fs) : NRows(S.fr[fs[i]]) = NRows(S.fr[fs[1]])
ConcatOk(S, fs) == SameSize(S, fs) /\ ~Overlap(S, fs)
SameOrg(S, fs)  == \A i \in 1..Len(fs) : S.fr[fs[i]].org = S.fr[fs[1]].org
RECURSIVE UnionCols(_, _, _)
UnionCols(S, fs, i) == IF i > Len(fs) THEN NullFn ELSE S.fr[fs[i]].cols @@ UnionCols(S, fs, i+1)
Lineage(S, fs)  == Rng(fs) \cup UNION {S.fr[g].lin : g \in Rng(fs)}
OpColumnConcat(S, id, fs) ==
  LET F == S.fr[fs[1]]
  IN Add(S, id, [F EXCEPT !.cols = TLCEval(UnionCols(S, fs, 1)), !.anc = {}, !.lin = Lineage(S, fs), !.org = id])
(* the same without sharing *)
OpColumnCopyConcat(S, id, fs) ==
  LET F == [S.fr[fs[1]] EXCEPT !.cols = TLCEval(UnionCols(S, fs, 1))]
      T == Create(S, id, NRows(F), AsSpecs(S, F, Names(F)), F.cpu, F.enc)
  IN [T EXCEPT !.fr[id].tsm = F.tsm]
RowConcatOk(S, fs) ==
  LET F == S.fr[fs[1]]
  IN \A i \in 1..Len(fs) : \A c \in Names(F) :
       c \in Names(S.fr[fs[i]]) /\ S.fr[fs[i]].cols[c].t = F.cols[c].t
OpRowConcat(S, id, fs, cpu) ==
  LET F  == S.fr[fs[1]]
      ns == SetToSeq(Names(F))
      vs(c) == FlattenSeq([i \in 1..Len(fs) |-> TLCEval(Vals(S, S.fr[fs[i]], c))])
      sp == [k \in 1..Len(ns) |-> [n |-> ns[k], t |-> F.cols[ns[k]].t, s |-> F.cols[ns[k]].s, v |-> TLCEval(vs(ns[k]))]]
      n  == FoldSeq(LAMBDA g, acc : acc + NRows(S.fr[g]), 0, fs)
  IN Create(S, id, n, sp, cpu, F.enc)
(* columns of several contiguous frames shared through their raw data *)
OpMergeColumns(S, id, fs, cpu) ==
  LET F == S.fr[fs[1]]
      G == NewFrame(TLCEval(FreshRows(S, NRows(F))), TLCEval(UnionCols(S, Reverse(fs), 1)), cpu,
                    S.fr[fs[Len(fs)]].enc, id)
  IN [S EXCEPT !.rc = @ + NRows(F), !.fr = (id :> [G EXCEPT !.lin = Lineage(S, fs)]) @@ @, !.w = {}]
OpTransferInto(S, f, g) ==
  Restruct(S, f, S.heap, [S.fr[f] EXCEPT !.cols = TLCEval(S.fr[g].cols @@ @), !.lin = @ \cup Lineage(S, <<g>>)])

(***************************************************************************)
(* Text encoding.  tab maps every string token in the current encoding to   *)
(* its token in the new one, or to NIL if it cannot be converted.           *)
(***************************************************************************)
StrCells(S, F)  == UNION {Rng(F.cols[c].c) : c \in StrCols(F)}
EncodeFails(S, F, tab) == \E x \in StrCells(S, F) : S.heap[x] # NIL /\ tab[S.heap[x]] = NIL
OpEncode(S, f, enc, tab) ==
  LET X == {x \in StrCells(S, S.fr[f]) : S.heap[x] # NIL}
  IN [S EXCEPT !.heap = TLCEval([x \in 1..Len(S.heap) |-> IF x \in X THEN tab[S.heap[x]] ELSE S.heap[x]]),
               !.fr[f].enc = enc, !.w = X]

(***************************************************************************)
(* Hashing of string columns into integers; hf is the hash function.       *)
(***************************************************************************)
HashCol(S, F, c, hf) ==
  [j \in 1..NRows(F) |-> LET v == S.heap[F.cols[c].c[j]] IN IF v = NIL THEN MISSINT ELSE hf[v]]
HashSpecs(S, F, names, hf) ==
  LET ns == SetToSeq(names)
  IN [k \in 1..Len(ns) |-> [n |-> ns[k], t |-> "i", s |-> FALSE, v |-> TLCEval(HashCol(S, F, ns[k], hf))]]
OpHash(S, id, src, names, hf) ==
  LET V == ViewOf(S, src)
      r == WithCols(S.heap, V, HashSpecs(S, V, names, hf))
  IN [S EXCEPT !.heap = r.heap, !.hf = hf, !.w = {},
               !.fr = (id :> [r.F EXCEPT !.org = IF names = {} THEN @ ELSE id]) @@ @]

(***************************************************************************)
(* Labels, numbered by first appearance.                                   *)
(***************************************************************************)
LabelFirst(v)  == TLCEval([x \in Rng(v) \ {NIL} |-> CHOOSE j \in 1..Len(v) : v[j] = x /\ \A i \in 1..(j-1) : v[i] # x])
LabelMap(v)    == LET f == LabelFirst(v)
                  IN TLCEval([x \in DOMAIN f |-> Cardinality({y \in DOMAIN f : f[y] < f[x]})])
LabelInts(v)   == LET m == LabelMap(v) IN [j \in 1..Len(v) |-> IF v[j] = NIL THEN -1 ELSE m[v[j]]]
=============================================================================
