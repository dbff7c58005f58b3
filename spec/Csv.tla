-------------------------------- MODULE Csv ---------------------------------
(***************************************************************************)
(* CSV writing and reading.  Records are parsed (written files) or given    *)
(* (read files) by the harness; a text is [s, b, i, f, n]: its string token,*)
(* its value as a bool, an integer and a float (NOVAL if it is none), and   *)
(* the text itself.                                                         *)
(***************************************************************************)
EXTENDS Preproc

NOVAL == -1999999000

(* columns that have a CSV representation *)
CsvCols(F) == {c \in Names(F) : F.cols[c].t # "o" \/ F.cols[c].s}
CsvCell(S, F, c, j, marker) == LET v == S.heap[F.cols[c].c[j]] IN IF v = NIL THEN marker ELSE v
\* the line ends of an output
LineEnd(crlf) == {IF crlf THEN "crlf" ELSE "lf"}
RECURSIVE FlatRecs(_, _)
\* [h, r]: each record with its header
FlatRecs(outs, k) == IF k > Len(outs) THEN <<>>
                     ELSE [i \in 1..Len(outs[k].recs) |-> [h |-> outs[k].hdr, r |-> outs[k].recs[i]]] \o FlatRecs(outs, k+1)
CsvWritten(S, F, outs, perm, order, marker) ==
  LET recs == TLCEval(FlatRecs(outs, 1)) IN
  /\ \A k \in 1..Len(outs) : IsInjSeq(outs[k].hdr) /\ Rng(outs[k].hdr) = CsvCols(F)
  /\ Len(recs) = NRows(F)
  /\ IsPerm(perm, NRows(F)) /\ (order => perm = Ident(NRows(F)))
  /\ \A i \in 1..Len(recs) :
       /\ Len(recs[i].r) = Len(recs[i].h)
       /\ \A p \in 1..Len(recs[i].h) : recs[i].r[p] = CsvCell(S, F, recs[i].h[p], perm[i], marker)

(* inference: tx = the texts of a column *)
IsMiss(o, x)  == x.s \in Rng(o.missing)
AllBool(tx)   == \A i \in 1..Len(tx) : tx[i].b # NOVAL
Binary(tx)    == \A i \in 1..Len(tx) : tx[i].n \in {"0", "1"}
AllInts(o, tx)   == \A i \in 1..Len(tx) : IsMiss(o, tx[i]) \/ tx[i].i # NOVAL
AllFloats(o, tx) == \A i \in 1..Len(tx) : IsMiss(o, tx[i]) \/ tx[i].f # NOVAL
InferType(o, tx) ==
  IF AllBool(tx) THEN (IF o.boolf \/ (o.binf /\ Binary(tx)) THEN "bf" ELSE "b")
  ELSE IF ~o.intf /\ AllInts(o, tx) THEN "i"
  ELSE IF AllFloats(o, tx) THEN "f" ELSE "o"
InferVal(o, ty, x) ==
  CASE ty \in {"b", "bf"} -> x.b
    [] ty = "i" -> IF IsMiss(o, x) THEN MISSINT ELSE x.i
    [] ty = "f" -> IF IsMiss(o, x) THEN NAN ELSE x.f
    [] OTHER    -> IF IsMiss(o, x) THEN NIL ELSE x.s
(* recs: records as sequences of indices into txt *)
CsvHeader(o, recs, txt) == IF o.header # <<>> THEN o.header
                           ELSE [p \in 1..Len(recs[1]) |-> txt[recs[1][p]].n]
CsvData(o, recs) == IF o.header # <<>> THEN recs ELSE Tail(recs)
CsvSpecs(o, recs, txt) ==
  LET h  == CsvHeader(o, recs, txt)
      d  == CsvData(o, recs)
      ps == SelectSeq(Ident(Len(h)), LAMBDA p : h[p] \notin Rng(o.exclude))
      col(p) == [i \in 1..Len(d) |-> txt[d[i][p]]]
  IN [k \in 1..Len(ps) |-> LET tx == TLCEval(col(ps[k]))
                               ty == InferType(o, tx)
                           IN [n |-> h[ps[k]], t |-> IF ty = "bf" THEN "f" ELSE ty, s |-> ty = "o",
                               v |-> TLCEval([i \in 1..Len(tx) |-> InferVal(o, ty, tx[i])])]]
EffCPU(cpu, ncpu) == IF cpu <= 0 \/ cpu >= ncpu THEN ncpu ELSE cpu
OpCsvRead(S, id, o, recs, txt, ncpu) ==
  Create(S, id, Len(CsvData(o, recs)), CsvSpecs(o, recs, txt), EffCPU(o.cpu, ncpu), o.enc)

(* several files: rows of all of them, in an order given by perm; types are  *)
(* inferred from all of them together                                        *)
Joined(o, files, txt) ==   \* one table; the columns of a file can be in another order
  LET h == CsvHeader(o, files[1], txt)
      of(k) == LET g == CsvHeader(o, files[k], txt)
                   at == TLCEval([p \in 1..Len(h) |-> CHOOSE q \in 1..Len(g) : g[q] = h[p]])
               IN [i \in 1..Len(CsvData(o, files[k])) |-> [p \in 1..Len(h) |-> CsvData(o, files[k])[i][at[p]]]]
  IN [h |-> h, d |-> TLCEval(FoldSeq(LAMBDA k, acc : acc \o TLCEval(of(k)), <<>>, Ident(Len(files))))]
OpCsvReadMany(S, id, o, files, txt, perm, ncpu) ==
  LET j == Joined(o, files, txt)
      d == TLCEval([i \in 1..Len(perm) |-> j.d[perm[i]]])
  IN Create(S, id, Len(perm), CsvSpecs([o EXCEPT !.header = j.h], d, txt), EffCPU(o.cpu, ncpu), o.enc)
=============================================================================
