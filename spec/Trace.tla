------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of traces recorded from the real code.  Each trace is an      *)
(* independent behaviour; every step names an operation with its arguments, *)
(* what it returned, and what all frames whose contents changed (or that    *)
(* appeared) show afterwards.  A step is taken only if the specification    *)
(* allows the operation, with those results, in that state, and if every    *)
(* live frame shows exactly what the specification says.  A trace whose     *)
(* last step is reached is printed as ACCEPT; any other trace violates the  *)
(* specification at the step it is stuck at.                                *)
(***************************************************************************)
EXTENDS Csv, Train, Print, Misuse, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

VARIABLES t, l, S
vars == <<t, l, S>>

st == T[t].steps[l]
Has(x) == x \in DOMAIN st

(*************************** observation ***********************************)
ObsIds(s) == {s.obs[i].f : i \in 1..Len(s.obs)}
Say(what, exp, got) == IF Diag THEN PrintT(<<"DIAG", t, l, st.op, what, "spec", exp, "code", got>>) /\ FALSE ELSE FALSE
Ok(b, what, exp, got) == IF b THEN TRUE ELSE Say(what, exp, got)
ColMatch(S2, F, o, k) ==
  LET c == o.cols[k] IN
  /\ Ok(c.n \in Names(F), <<"frame", o.f, "unexpected column", c.n>>, Names(F), c.t)
  /\ Ok(F.cols[c.n].t = c.t /\ F.cols[c.n].s = c.s, <<"frame", o.f, "type of", c.n>>, <<F.cols[c.n].t, F.cols[c.n].s>>, <<c.t, c.s>>)
  /\ LET v == TLCEval(Vals(S2, F, c.n)) IN Ok(c.v = v, <<"frame", o.f, "values of", c.n>>, v, c.v)
ObsMatch(S2, o) ==
  LET F == S2.fr[o.f] IN
  /\ Ok(o.n = NRows(F), <<"frame", o.f, "rows">>, NRows(F), o.n)
  /\ Ok(o.cpu = F.cpu, <<"frame", o.f, "cpu">>, F.cpu, o.cpu)
  /\ \A k \in 1..Len(o.cols) : ColMatch(S2, F, o, k)
  /\ Ok(Len(o.cols) = Cardinality(Names(F)), <<"frame", o.f, "columns">>, Names(F), [k \in 1..Len(o.cols) |-> o.cols[k].n])
  /\ Ok("bad" \notin DOMAIN o, <<"frame", o.f, "facts">>, "true", o)
  /\ Ok(o.nc = Cardinality(Names(F)) /\ Rng(o.hd) = Names(F) /\ Len(o.hd) = o.nc, <<"frame", o.f, "header">>, Names(F), <<o.nc, o.hd>>)
Unchanged(S1, S2, f) ==
  /\ Ok(f \in DOMAIN S1.fr, <<"frame", f, "not returned">>, "present", "absent")
  /\ LET A == S1.fr[f]
         B == S2.fr[f]
     IN IF A = B /\ (S2.w = {} \/ S2.w \cap CellsOf(A) = {}) THEN TRUE
        ELSE Ok(/\ NRows(A) = NRows(B) /\ A.cpu = B.cpu /\ Names(A) = Names(B)
                /\ \A c \in Names(A) : A.cols[c].t = B.cols[c].t /\ A.cols[c].s = B.cols[c].s
                                       /\ TLCEval(Vals(S1, A, c)) = TLCEval(Vals(S2, B, c)),
                <<"frame", f, "should have changed">>, [c \in Names(B) |-> Vals(S2, B, c)], "no change")
Observed(S2) ==
  /\ Ok(ObsIds(st) \subseteq DOMAIN S2.fr, "frames", DOMAIN S2.fr, ObsIds(st))
  /\ \A i \in 1..Len(st.obs) : ObsMatch(S2, st.obs[i])
  /\ IF Has("par") THEN TRUE ELSE \A f \in DOMAIN S2.fr \ ObsIds(st) : Unchanged(S, S2, f)
\* frames dropped by the harness must be exactly those the specification drops
Go(S2) == LET X == TLCEval(S2) IN
  /\ (Has("gone") /\ Rng(st.gone) # {}) => Rng(st.gone) = DOMAIN S.fr \ DOMAIN X.fr
  /\ (~Has("gone") \/ Rng(st.gone) = {}) => DOMAIN S.fr \subseteq DOMAIN X.fr
  /\ Observed(X)
  /\ S' = X
Fine == Ok("panic" \notin DOMAIN st, "call", "no panic", st.panic)
Is(x) == st.op = x
Chk(b, what) == Ok(b, what, "ok", "not ok")
ObsOf(f) == st.obs[CHOOSE i \in 1..Len(st.obs) : st.obs[i].f = f]
CpuOf(f) == IF \E i \in 1..Len(st.obs) : st.obs[i].f = f THEN ObsOf(f).cpu ELSE -1
N(f) == NRows(S.fr[f])
Same == Go([S EXCEPT !.w = {}])
(* Steps of operations that ran at the same time (par) follow one another here *)
(* in some order; after the last one, all frames are looked at.                *)
Join == Is("Join") /\ Ok(ObsIds(st) = DOMAIN S.fr, "frames", DOMAIN S.fr, ObsIds(st)) /\ Same

(*************************** creation and views ****************************)
\* accs: slices of columns that the caller keeps, and that the frame shares
New == /\ Is("New")
       /\ LET X == TLCEval(Create(S, st.f, st.n, st.cols, EffCPU(st.cpu, st.ncpu), st.enc))
              A == IF Has("accs") THEN st.accs ELSE <<>>
          IN Go([X EXCEPT !.acc = [a \in {A[k].a : k \in 1..Len(A)} |->
                                     X.fr[st.f].cols[A[CHOOSE k \in 1..Len(A) : A[k].a = a].col].c] @@ @])
Forget == Is("Forget") /\ S' = [S EXCEPT !.fr = Less(@, Rng(st.fs)), !.w = {}]
View == Is("View") /\ Go(OpView(S, st.f, st.src))
ShallowCopy == Is("ShallowCopy") /\ Go(OpShallowCopy(S, st.f, st.src))
Copy == Is("Copy") /\ Go(OpCopy(S, st.f, st.src))
IndexView == Is("IndexView") /\ Go(OpIndexView(S, st.f, st.src, st.idx))
SliceView == Is("SliceView") /\ Go(OpIndexView(S, st.f, st.src, SliceIdx(N(st.src), st.from, st.to)))
MaskView == Is("MaskView") /\ Len(st.mask) = N(st.src) /\ Go(OpIndexView(S, st.f, st.src, MaskIdx(st.mask)))
ReverseView == Is("ReverseView") /\ Go(OpIndexView(S, st.f, st.src, ReverseIdx(N(st.src))))
ColumnView == Is("ColumnView") /\ Go(OpColumnView(S, st.f, st.src, Rng(st.cols)))
PermView == /\ st.op \in {"ShuffleView", "ResetIndexView"}
            /\ Chk(IsPerm(st.perm, N(st.src)), <<"permutation", st.perm>>)
            /\ Go(OpIndexView(S, st.f, st.src, st.perm))
SampleView == /\ Is("SampleView")
              /\ Chk(Len(st.perm) = st.k /\ IsInjSeq(st.perm) /\ Rng(st.perm) \subseteq 1..N(st.src), <<"sample", st.perm>>)
              /\ Go(OpIndexView(S, st.f, st.src, st.perm))
Values(f, c) == TLCEval(Vals(S, S.fr[f], c))
SortedView == /\ Is("SortedView")
              /\ Chk(IsPerm(st.perm, N(st.src)) /\ SortedBy(Values(st.src, st.col), st.perm), <<"sort", st.perm>>)
              /\ Go(OpIndexView(S, st.f, st.src, st.perm))
TopView == /\ Is("TopView")
           /\ Chk(TopOk(Values(st.src, st.col), st.perm, st.k, st.asc, st.sorted), <<"top", st.perm>>)
           /\ Go(OpIndexView(S, st.f, st.src, st.perm))
SplitView == /\ Is("SplitView")
             /\ Chk(Len(st.fs) = NPieces(N(st.src), st.b), <<"pieces", st.fs>>)
             /\ Go(OpSplit(S, st.fs, st.src, SplitIdx(N(st.src), st.b)))
(* pieces of any sizes, in order, as long as there are exactly n of them *)
Sizes(fs) == [k \in 1..Len(fs) |-> ObsOf(fs[k]).n]
Offset(sz, k) == Sum(SubSeq(sz, 1, k-1))
SplitNView == /\ Is("SplitNView")
              /\ Chk(Len(st.fs) = st.b, <<"pieces", st.fs>>)
              /\ LET sz == TLCEval(Sizes(st.fs)) IN
                 /\ Chk(Sum(sz) = N(st.src), <<"sizes", sz>>)
                 /\ Go(OpSplit(S, st.fs, st.src, [k \in 1..Len(sz) |-> Upto(Offset(sz, k) + 1, Offset(sz, k) + sz[k])]))
SplitTT == /\ Is("SplitTrainTest")   \* ratio = num/den
           /\ LET n == N(st.src)
                  k == (n * st.num) \div st.den
              IN Go(OpSplit(S, st.fs, st.src, <<Upto(1, n-k), Upto(n-k+1, n)>>))
DetachedView == Is("DetachedView") /\ Go(OpDetachedView(S, st.f, st.src, Rng(st.cols)))
(* kept: columns the code still shares with another frame or an accessor *)
Unshare == /\ Is("Unshare")
           /\ LET names == IF st.cols = <<>> THEN Names(S.fr[st.f]) ELSE Rng(st.cols)
                  kept  == Rng(st.kept)
              IN /\ Ok(kept \subseteq MayKeep(S, st.f, names), "still shared", MayKeep(S, st.f, names), kept)
                 /\ Go(OpUnshare(S, st.f, names, kept))

(*************************** writes ****************************************)
SetMany == /\ Is("SetMany")
           /\ LET c == S.fr[st.f].cols[st.col].c
              IN Go(Write(S, [k \in 1..Len(st.rows) |-> c[st.rows[k]]], st.vals))
GetAcc == /\ Is("GetAcc")
          /\ Go([S EXCEPT !.acc = (st.a :> S.fr[st.f].cols[st.col].c) @@ @, !.w = {}])
AccSet == /\ Is("AccSet")
          /\ Go(Write(S, [k \in 1..Len(st.rows) |-> S.acc[st.a][st.rows[k]]], st.vals))
AccGet == /\ Is("AccGet")
          /\ LET v == TLCEval([j \in 1..Len(S.acc[st.a]) |-> S.heap[S.acc[st.a][j]]])
             IN Ok(st.v = v, "accessor", v, st.v)
          /\ Same
Overwrite == Is("Overwrite") /\ Go(OpOverwrite(S, st.f, st.t, st.s, st.col, st.vals))
Alloc == Is("Alloc") /\ Go(OpAlloc(S, st.f, st.t, st.s, Rng(st.cols)))
Drop == Is("Drop") /\ Go(IF st.cols = <<>> THEN [S EXCEPT !.w = {}] ELSE OpDrop(S, st.f, Rng(st.cols)))
Rename == Is("Rename") /\ Go(OpRename(S, st.f, st.a, st.b))
Convert == /\ Is("Convert")
           /\ \A i \in 1..Len(st.cols) : S.fr[st.f].cols[st.cols[i]].t = st.t
           /\ Go(OpConvert(S, st.f, Rng(st.cols)))
SetCPU == Is("SetMaxCPU") /\ Go(OpSetCPU(S, st.f, st.cpu, st.ncpu))

(*************************** concatenation *********************************)
ColumnConcat ==
  /\ Is("ColumnConcatView")
  /\ IF ~ConcatOk(S, st.fs) THEN Chk(st.err, "expected an error") /\ Same
     ELSE IF st.err THEN Chk(~SameOrg(S, st.fs), "unexpected error") /\ Same
     ELSE Go(OpColumnConcat(S, st.f, st.fs))
ColumnCopyConcat ==
  /\ Is("ColumnCopyConcat")
  /\ Chk(st.err <=> ~ConcatOk(S, st.fs), <<"error", st.err>>)
  /\ IF st.err THEN Same ELSE Go(OpColumnCopyConcat(S, st.f, st.fs))
ColumnSmartConcat ==
  /\ Is("ColumnSmartConcat")
  /\ Chk(st.err <=> ~ConcatOk(S, st.fs), <<"error", st.err>>)
  /\ IF st.err THEN Same
     ELSE IF SameOrg(S, st.fs) \/ st.shared THEN Go(OpColumnConcat(S, st.f, st.fs))
     ELSE Go(OpColumnCopyConcat(S, st.f, st.fs))
RowConcat ==
  /\ Is("RowConcat")
  /\ Chk(st.err <=> ~RowConcatOk(S, st.fs), <<"error", st.err>>)
  /\ IF st.err THEN Same ELSE Go(OpRowConcat(S, st.f, st.fs, CpuOf(st.f)))
MergeRows == Is("MergeRows") /\ Go(OpRowConcat(S, st.f, st.fs, CpuOf(st.f)))
MergeColumns == Is("MergeColumns") /\ Go(OpMergeColumns(S, st.f, st.fs, CpuOf(st.f)))
TransferInto == Is("TransferInto") /\ Go(OpTransferInto(S, st.f, st.g))

(*************************** encoding and hashing **************************)
PairFn(ps) == [x \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2]]
Encode ==
  /\ Is("Encode")
  /\ LET F == S.fr[st.f] IN
     IF F.enc = st.enc THEN Chk(~st.err, "unexpected error") /\ Same
     ELSE LET tab == TLCEval(PairFn(T[t].enc[F.enc][st.enc])) IN
       /\ Chk(st.err <=> EncodeFails(S, F, tab), <<"error", st.err>>)
       /\ IF st.err THEN Same ELSE Go(OpEncode(S, st.f, st.enc, tab))
(* the hash function learned so far, extended by the pairs of this step *)
HashPairsOk(ps) ==
  /\ \A i, j \in 1..Len(ps) : (ps[i][1] = ps[j][1]) <=> (ps[i][2] = ps[j][2])
  /\ \A i \in 1..Len(ps) : ps[i][2] >= 0 /\ (ps[i][1] \in DOMAIN S.hf => S.hf[ps[i][1]] = ps[i][2])
  /\ \A i \in 1..Len(ps) : \A x \in DOMAIN S.hf : S.hf[x] = ps[i][2] => x = ps[i][1]
Hf == TLCEval(PairFn(st.hm) @@ S.hf)
HashView ==
  /\ Is("HashStringsView")
  /\ Chk(HashPairsOk(st.hm), <<"hash function", st.hm>>)
  /\ Go(OpHash(S, st.f, st.src, Rng(st.cols), Hf))
\* hashes of the same strings in another process
HashTable == Is("HashTable") /\ Chk(HashPairsOk(st.hm), <<"hash function", st.hm>>) /\ Same

\* a large sample of strings: one number for each of them
HashBig == Is("HashBig") /\ Same
           /\ Ok(st.size = st.n /\ st.distinct = st.n /\ st.neg = 0 /\ st.unstable = 0, "hashes of different strings", st.n, <<st.size, st.distinct, st.neg, st.unstable>>)

(*************************** readers ***************************************)
Readers ==
  \/ /\ Is("CopyValues") /\ Same
     /\ LET v == Values(st.f, st.col) IN Ok(st.v = v, "CopyValues", v, st.v)
  \/ /\ Is("VecDense") /\ Same
     /\ LET v == Values(st.f, st.col) IN Ok(st.v = v, "VecDense", v, st.v)
  \/ /\ Is("LabelToInt") /\ Same
     /\ LET v == Values(st.f, st.col)
            e == TLCEval(LabelInts(v))
        IN /\ Ok(st.v = e, "LabelToInt", e, st.v)
           /\ LET lab == LabelMap(v)
                  m   == {<<x, lab[x]>> : x \in DOMAIN lab}
              IN Ok(Rng(st.map) = m /\ Len(st.map) = Cardinality(m), "mapping", m, st.map)
  \/ /\ Is("Dense") /\ Same    \* m: matrix as a sequence of columns
     /\ Ok(st.r = N(st.f) /\ st.c = Len(st.cols), "dimensions", <<N(st.f), Len(st.cols)>>, <<st.r, st.c>>)
     /\ \A k \in 1..Len(st.cols) : LET v == Values(st.f, st.cols[k]) IN Ok(st.m[k] = v, <<"matrix", st.cols[k]>>, v, st.m[k])
  \/ /\ Is("Iterate") /\ Same  \* m: columns of the k first rows; back: values at the returned backing indices
     /\ LET k == IF st.full THEN N(st.f) ELSE st.k IN
        /\ Ok(st.k = k, "rows iterated", k, st.k)
        /\ Ok(st.full => st.end = k, "end", k, st.end)
        /\ Ok(st.idx = [j \in 1..k |-> j-1], "view indices", k, st.idx)
        /\ Ok(st.names = st.cols, "columns", st.cols, st.names)
        /\ \A i \in 1..Len(st.cols) :
             LET v == SubSeq(Values(st.f, st.cols[i]), 1, k) IN
             /\ LET e == [j \in 1..k |-> Single(v[j])] IN Ok(st.m[i] = e, <<"rows", st.cols[i]>>, e, st.m[i])
             /\ Ok(st.back[i] = v, <<"backing rows", st.cols[i]>>, v, st.back[i])
  \/ /\ Is("SharedIndex") /\ Same   \* same backing row iff same row
     /\ LET r == S.fr[st.f].rows
            n == Cardinality({<<st.v[i], r[i]>> : i \in 1..Len(st.v)})
        IN Chk(Len(st.v) = N(st.f) /\ n = Cardinality(Rng(st.v)) /\ n = Cardinality(Rng(r)), <<"shared index", st.v>>)
Headers ==
  /\ Is("Headers") /\ Same
  /\ LET F == S.fr[st.f]
         H(x) == CASE x = "s" -> StrCols(F) [] x = "a" -> Names(F) [] OTHER -> ColsOf(F, x)
     IN \A i \in 1..Len(st.ops) :
          LET o == st.ops[i]
              e == CASE o.k = "and"    -> H(o.x) \cup H(o.y)
                     [] o.k = "except" -> H(o.x) \ Rng(o.names)
                     [] o.k = "exceptH"-> H(o.x) \ H(o.y)
                     [] OTHER          -> H(o.x)
          IN Ok(Rng(o.v) = e /\ Len(o.v) = Cardinality(e) /\ o.num = Len(o.v), <<"header", o>>, e, o.v)

(*************************** printing **************************************)
Tables == [f |-> TableFn(st.tf), i |-> TableFn(st.ti), o |-> TableFn(st.to)]
Lines(kind) ==
  LET F == S.fr[st.f] IN
  CASE kind = "head"    -> HeadLines(S, F, st.n, st.order, Tables)
    [] kind = "records" -> RecordLines(S, F, st.n, st.order, Tables, TableFn(st.short), st.idx)
    [] OTHER            -> SummaryLines(F, st.order)
Prints ==
  \/ /\ Is("Print") /\ Same
     /\ LET F == S.fr[st.f] IN
        /\ Chk(Rng(st.order) = Names(F) /\ IsInjSeq(st.order), <<"columns", st.order>>)
        /\ Chk(Len(st.idx) = NRows(F) /\ \A i, j \in 1..Len(st.idx) : (st.idx[i] = st.idx[j]) <=> (F.rows[i] = F.rows[j]), <<"indices", st.idx>>)
        /\ Chk(st.self, "the dataframe itself")
        /\ LET e == TLCEval(FlattenSeq([k \in 1..Len(st.kinds) |-> Lines(st.kinds[k])])) IN Ok(st.lines = e, "printed", e, st.lines)
  \/ /\ Is("ShortNames") /\ Same
     /\ Ok(ShortNamesOk(Names(S.fr[st.f]), st.min, TableFn(st.short)), "short names", Names(S.fr[st.f]), st.short)
  \/ /\ Is("Debug") /\ Same /\ Chk(st.self, "the dataframe itself")

(*************************** refused calls *********************************)
Refuse ==
  /\ Is("Misuse") /\ Same
  /\ IF Either(S, st) THEN TRUE ELSE Ok(st.refused <=> Invalid(S, st), "refused", Invalid(S, st), st)
  /\ IF st.refused THEN TRUE ELSE Ok(SizesOk(S, st, st.got), "sizes of the answer", "others", st)

(*************************** masks *****************************************)
\* masks are [v, ts]; the content of a mask is only known until the next call
\* unless thread-safe masking was on
Masks ==
  \/ /\ Is("SafeMasking") /\ Go([S EXCEPT !.fr[st.f].tsm = st.on, !.w = {}])
  \/ /\ Is("Mask")
     /\ Ok(Len(st.v) = N(st.f), "mask size", N(st.f), Len(st.v))
     /\ Ok(st.zero => \A j \in 1..Len(st.v) : ~st.v[j], "mask", "all false", st.v)
     /\ LET keep == {m \in DOMAIN S.msk : S.msk[m].ts}
        IN Go([S EXCEPT !.msk = (st.m :> [v |-> st.v, ts |-> S.fr[st.f].tsm]) @@ Restr(@, keep), !.w = {}])
  \/ /\ Is("MaskSet") /\ Go([S EXCEPT !.msk[st.m].v = st.v, !.w = {}])
  \/ /\ Is("MaskCheck")   \* contents of live thread-safe masks
     /\ \A i \in 1..Len(st.ms) : S.msk[st.ms[i].m].ts =>
          Ok(S.msk[st.ms[i].m].v = st.ms[i].v, <<"mask", st.ms[i].m>>, S.msk[st.ms[i].m].v, st.ms[i].v)
     /\ Same
  \/ /\ Is("MaskRace")    \* concurrent calls: sizes, and contents after all were filled
     /\ \A i \in 1..Len(st.rs) :
          /\ Ok(st.rs[i].n = N(st.rs[i].f), "mask size", N(st.rs[i].f), st.rs[i].n)
          /\ Chk(st.rs[i].clean /\ st.rs[i].kept, <<"concurrent masks overlap", st.rs[i]>>)
     /\ Same

(*************************** CSV *******************************************)
CsvOps ==
  \/ /\ Is("CsvWrite") /\ Chk(~st.err, "unexpected error") /\ Same
     /\ Chk(CsvWritten(S, S.fr[st.f], st.outs, st.perm, st.order, st.marker), <<"written records", st.perm>>)
     /\ \A k \in 1..Len(st.outs) : Ok(LineEnd(st.crlf) = Rng(st.outs[k].ends), <<"line ends of output", k>>, LineEnd(st.crlf), Rng(st.outs[k].ends))
  \/ /\ Is("CsvFault") /\ Chk(st.err <=> st.injected, <<"error", st.err, "failure", st.injected>>) /\ Same
  \/ /\ Is("CsvRead") /\ Chk(~st.err, "unexpected error")
     /\ Go(OpCsvRead(S, st.f, st.opt, st.recs, st.txt, st.ncpu))
  \/ /\ Is("CsvReadMany") /\ Chk(~st.err, "unexpected error")
     /\ Chk(IsPerm(st.perm, Sum([k \in 1..Len(st.files) |-> Len(CsvData(st.opt, st.files[k]))])), <<"rows", st.perm>>)
     /\ Go(OpCsvReadMany(S, st.f, st.opt, st.files, st.txt, st.perm, st.ncpu))

(*************************** trained components ****************************)
Put(c, x) == Go([S EXCEPT !.cmp = (c :> x) @@ @, !.w = {}])
Comp == S.cmp[st.c]
NoErr == Chk(~st.err, "unexpected error")
ImpComp(ps) == [k |-> "imp", P |-> ByName(ps)]
CompOps ==
  \/ /\ Is("ImputerFit") /\ NoErr
     /\ Chk(ImpFitOk(S, S.fr[st.f], ColsOf(S.fr[st.f], "f"), st.pol, st.ps), <<"fallback", st.ps>>)
     /\ Put(st.c, ImpComp(st.ps))
  \/ /\ Is("ImputerTransform") /\ NoErr
     /\ Go(MapCells(S, st.f, DOMAIN Comp.P, LAMBDA c, x : ImputeVal(x, Comp.P[c])))
  \/ /\ Is("ScalerFit") /\ NoErr
     /\ Chk(ScFitOk(S, S.fr[st.f], ColsOf(S.fr[st.f], "f"), st.opt, st.sh, st.sc), <<"shift and scale", st.sh, st.sc>>)
     /\ Put(st.c, [k |-> "sc", sh |-> ByName(st.sh), sc |-> ByName(st.sc)])
  \/ /\ Is("ScalerTransform") /\ NoErr
     /\ LET o == Comp IN Go(MapCells(S, st.f, DOMAIN o.sh \cup DOMAIN o.sc,
          LAMBDA c, x : IF st.inv THEN UnscaleVal(x, TokOf(o.sh, c, 0), TokOf(o.sc, c, ONE))
                        ELSE ScaleVal(x, TokOf(o.sh, c, 0), TokOf(o.sc, c, ONE))))
  \/ /\ Is("HashFit") /\ NoErr
     /\ Chk(Rng(st.cols) = StrCols(S.fr[st.f]) /\ IsInjSeq(st.cols), <<"columns", st.cols>>)
     /\ Put(st.c, [k |-> "hash", cols |-> Rng(st.cols)])
  \/ /\ Is("HashTransform") /\ NoErr
     /\ Chk(HashPairsOk(st.hm), <<"hash function", st.hm>>)
     /\ Go(OpHash(S, st.f, st.src, Comp.cols, Hf))
  \/ /\ Is("OneHotFit") /\ NoErr
     /\ LET p == NormPolicies(st.mp, st.up)
            F == S.fr[st.f]
        IN /\ Chk(OneHotFitOk(S, F, ColsOf(F, "i"), p[1], p[2], st.cats, st.newcols), <<"categories", st.cats, st.newcols>>)
           /\ Put(st.c, [k |-> "oh", o |-> OneHotComp(p[1], p[2], st.keep, st.cats)])
  \/ /\ Is("OneHotTransform")
     /\ LET o == Comp.o IN
        /\ Chk(st.err <=> OneHotFails(S, o, S.fr[st.src]), <<"error", st.err>>)
        /\ IF st.err THEN Same ELSE Go(OpOneHot(S, st.f, st.src, o))
  \/ /\ Is("AutoFit") /\ NoErr   \* f # 0: FitTransform returned that frame
     /\ Chk(HashPairsOk(st.hm), <<"hash function", st.hm>>)
     /\ LET F == S.fr[st.src]
            a == AutoComp(st.opt, st)
        IN /\ Chk(AutoFitOk(S, F, st.opt, Rng(st.excl), st, Hf), <<"training", st.imp, st.sh, st.scl, st.hash, st.cats>>)
           /\ LET S1 == [S EXCEPT !.cmp = (st.c :> a) @@ @]
              IN IF st.f = 0 THEN Go([S1 EXCEPT !.hf = Hf, !.w = {}])
                 ELSE /\ Chk(Rng(st.det) \subseteq AutoFloats(F, Rng(st.excl)), <<"copied columns", st.det>>)
                      /\ Go(OpAutoTransform(S1, st.f, st.src, a, Rng(st.det), Hf))
  \/ /\ Is("AutoTransform") /\ NoErr
     /\ Chk(HashPairsOk(st.hm), <<"hash function", st.hm>>)
     /\ Go(OpAutoTransform(S, st.f, st.src, Comp, {}, Hf))
  \/ /\ Is("Columns") /\ Same     \* TransformedColumns
     /\ LET e == CASE Comp.k = "imp" -> DOMAIN Comp.P
                   [] Comp.k = "sc"  -> DOMAIN Comp.sh \cup DOMAIN Comp.sc
                   [] Comp.k = "hash" -> Comp.cols
                   [] Comp.k = "oh"  -> DOMAIN Comp.o.cats
                   [] Comp.k = "auto" -> DOMAIN Comp.imp \cup DOMAIN Comp.sh \cup
                                         (IF Comp.hash # {} THEN Comp.hash ELSE DOMAIN Comp.oh.cats)
                   [] OTHER -> Rng(Comp.m.feats)
        IN Ok(Rng(st.cols) = e /\ IsInjSeq(st.cols), "columns", e, st.cols)
  \/ /\ Is("Json")    \* component c2 is c marshalled and unmarshalled
     /\ NoErr /\ Put(st.c2, Comp)
  \/ /\ Is("LinFit") /\ NoErr
     /\ LET F == S.fr[st.f] IN
        /\ Chk(IsInjSeq(st.feats) /\ Rng(st.feats) = LinFeatures(F, st.target) /\ st.nw = Len(st.feats), <<"features", st.feats, st.nw>>)
        /\ LET v == Values(st.f, st.target) IN
           Chk(LinScalerOk(v, st.sh, st.sc), <<"target scaler", v, st.sh, st.sc>>)
     /\ Same
  \/ /\ Is("LinTrain") /\ NoErr /\ Same   \* w0: the weights training starts with, if they are known
     /\ LET F == S.fr[st.f]
            v == Values(st.f, st.target)
        IN /\ Chk(IsInjSeq(st.feats) /\ Rng(st.feats) = LinFeatures(F, st.target) /\ Len(st.w) = Len(st.feats), <<"features", st.feats>>)
           /\ Chk(LinScalerOk(v, st.sh, st.sc), <<"target scaler", v, st.sh, st.sc>>)
           /\ st.known =>
                LET X == TLCEval(TrainX(S, F, st.feats))
                    Y == TLCEval(TrainY(v, st.sh[1].tok, st.sc[1].tok))
                    W == TLCEval(Trained(st.w0, X, Y, TrainPar(st.par)))
                IN Ok(\E w \in W : Near(w, st.w), "trained weights", W, st.w)
  \/ /\ Is("LinSet") /\ Put(st.c, [k |-> "lin", m |-> [feats |-> st.feats, ws |-> st.ws, sh |-> st.sh, sc |-> st.sc]])
  \/ /\ Is("Predict") /\ NoErr
     /\ Chk(IsPerm(st.perm, N(st.src)), <<"rows", st.perm>>)
     /\ Go(OpPredict(S, st.f, st.src, Comp.m, st.col, st.perm))
  \/ /\ Is("PredictBig") /\ NoErr /\ Same   \* the rows of src in turn, st.total in all
     /\ LET n == N(st.src)
            F == S.fr[st.src]
            G == st.groups
        IN Ok([i \in 1..Len(G) |-> G[i].p] = Ident(n) /\
              \A i \in 1..Len(G) : G[i].v = PredVal(S, F, Comp.m, G[i].p) /\
                                   G[i].n = st.total \div n + IF G[i].p <= st.total % n THEN 1 ELSE 0,
              "prediction of each row", [j \in 1..n |-> PredVal(S, F, Comp.m, j)], G)
  \/ /\ Is("Metric") /\ Same
     /\ LET u == Values(st.f, st.col)
            v == Values(st.g, st.gcol)
            e == IF st.mse THEN SqErr(u, v) ELSE AbsErr(u, v)
        IN Ok(Abs(Len(u) * st.tok - e) <= Len(u), "metric times rows", e, st.tok * Len(u))

Step == \/ Join \/ New \/ Forget \/ View \/ ShallowCopy \/ Copy \/ IndexView \/ SliceView \/ MaskView \/ ReverseView
        \/ ColumnView \/ PermView \/ SampleView \/ SortedView \/ TopView \/ SplitView \/ SplitNView \/ SplitTT
        \/ DetachedView \/ Unshare \/ SetMany \/ GetAcc \/ AccSet \/ AccGet \/ Overwrite \/ Alloc \/ Drop
        \/ Rename \/ Convert \/ SetCPU \/ ColumnConcat \/ ColumnCopyConcat \/ ColumnSmartConcat \/ RowConcat
        \/ MergeRows \/ MergeColumns \/ TransferInto \/ Encode \/ HashView \/ HashTable \/ HashBig \/ Readers \/ Headers
        \/ Prints \/ Refuse \/ Masks \/ CsvOps \/ CompOps

Init == t \in 1..Len(T) /\ l = 1 /\ S = InitState
Next == /\ l <= Len(T[t].steps)
        /\ Fine
        /\ Step
        /\ l' = l + 1 /\ t' = t
        /\ (l' > Len(T[t].steps) => PrintT(<<"ACCEPT", t>>))
Spec == Init /\ [][Next]_vars

(* checked on every state of every trace *)
TypeOK == \A f \in DOMAIN S.fr : \A c \in Names(S.fr[f]) :
            /\ Len(S.fr[f].cols[c].c) = NRows(S.fr[f])
            /\ Rng(S.fr[f].cols[c].c) \subseteq 1..Len(S.heap)
=============================================================================
