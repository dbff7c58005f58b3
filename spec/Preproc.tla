------------------------------ MODULE Preproc -------------------------------
(***************************************************************************)
(* Packages preprocessing and algorithms: what training may depend on, and *)
(* what transformations and predictions do to frames.                      *)
(*                                                                         *)
(* Trained parameters are learned from the implementation and checked here *)
(* against the training rows: parameters that are not determined by the    *)
(* documentation (which most frequent category, names of columns...) are   *)
(* only constrained.  A parameter p is [tok, q, s]: its token, and p times *)
(* 65536 and 1024, rounded, for comparisons with a tolerance.              *)
(***************************************************************************)
EXTENDS Frames

NonMissing(v) == SelectSeq(v, LAMBDA x : x # NAN)
Sum(v)        == FoldSeq(LAMBDA x, acc : acc + x, 0, v)
SumSq(v, e)   == FoldSeq(LAMBDA x, acc : acc + (x \div e) * (x \div e), 0, v)
Divides(e, v) == \A i \in 1..Len(v) : v[i] % e = 0
SeqMin(v)     == FoldSeq(LAMBDA x, acc : Min2(x, acc), v[1], v)
SeqMax(v)     == FoldSeq(LAMBDA x, acc : Max2(x, acc), v[1], v)
Finite(p)     == p.tok # NAN
\* a * b can be computed
Safe(a, b)    == b = 0 \/ Abs(a) <= 2000000000 \div Abs(b)
Sane(x)       == Abs(x) <= 268435456
BADVAL        == -1999999124

\* column name -> element of a sequence of records [n, ...]
ByName(ps)    == TLCEval([c \in {ps[i].n : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i].n = c]])

(***************************************************************************)
(* FloatImputer.  pol: 0 mean, 1 zero, 2 one                               *)
(***************************************************************************)
\* differences with the first one: large values with a small spread stay small
Diffs(u)      == [i \in 1..Len(u) |-> u[i] - u[1]]
\* p is sgn times the mean of u, to one token and (if p is not large) to 1/65536
MeanIs(u, p, sgn) ==
  LET s == TLCEval(Sum(Diffs(u))) IN
  /\ Finite(p) /\ Abs(Len(u) * (sgn * p.t - u[1]) - s) <= Len(u)
  /\ (Abs(u[1]) <= 3800000 /\ Safe(Sum(u), 270)) =>
       Safe(p.q, Len(u)) /\ Abs(Len(u) * p.q - sgn * Sum(u) * 256) <= Len(u)
MeanOk(v, p)  == LET u == NonMissing(v) IN
                 IF Len(u) = 0 THEN Finite(p) ELSE MeanIs(u, p, 1)
ImpOk(v, pol, p) == CASE pol = 1 -> p.tok = 0
                      [] pol = 2 -> p.tok = ONE
                      [] OTHER   -> MeanOk(v, p)
ImpFitOk(S, F, names, pol, ps) ==
  LET P == ByName(ps) IN
  /\ DOMAIN P = names /\ Len(ps) = Cardinality(names)
  /\ \A c \in names : ImpOk(Vals(S, F, c), pol, P[c])
ImputeVal(x, p) == IF x = NAN THEN p.tok ELSE x

(***************************************************************************)
(* Scaler.  opt = [mm, ce, sc]; sh and sc: trained shift and scale          *)
(***************************************************************************)
ShiftOk(v, opt, p) ==
  LET u == NonMissing(v) IN
  /\ Finite(p)
  /\ Len(u) > 0 => IF opt.mm THEN p.tok = -SeqMin(u) ELSE MeanIs(u, p, -1)
ScaleOk(v, opt, p) ==
  LET u == NonMissing(v) IN
  /\ Finite(p) /\ p.q > 0
  /\ Len(u) > 0 =>
       IF opt.mm
       THEN LET r == SeqMax(u) - SeqMin(u) IN r > 0 => Safe(p.q, r) /\ Abs(p.q * r - 16777216) <= r
       ELSE LET n == Len(u)
                d == TLCEval(Diffs(u))
                \* unit of the differences
                e == IF Divides(256, d) THEN 256 ELSE IF Divides(16, d) THEN 16 ELSE 1
                s == Sum(d) \div e
                V == n * SumSq(d, e) - s * s
                G == (256 \div e) * (256 \div e)
            IN (SeqMax(d) - SeqMin(d) <= 900 * e /\ V > 0) =>
                 LET t == IF n <= 45 THEN (n * n * 1048576) \div V ELSE 1048576 \div (V \div (n * n)) IN
                 IF ~(n <= 45 \/ V % (n * n) = 0) THEN TRUE ELSE Safe(t, G) => p.s <= 46000 /\ Abs(p.s * p.s - G * t) <= 2 * p.s + 2 + G
ScFitOk(S, F, names, opt, sh, sc) ==
  LET SH == ByName(sh)
      SC == ByName(sc)
  IN /\ DOMAIN SH = (IF opt.mm \/ opt.ce THEN names ELSE {})
     /\ DOMAIN SC = (IF opt.mm \/ opt.sc THEN names ELSE {})
     /\ \A c \in DOMAIN SH : ShiftOk(Vals(S, F, c), opt, SH[c])
     /\ \A c \in DOMAIN SC : ScaleOk(Vals(S, F, c), opt, SC[c])
TokOf(P, c, dflt) == IF c \in DOMAIN P THEN P[c].tok ELSE dflt
ScaleVal(x, sh, sc)   == IF x = NAN THEN NAN
                         ELSE IF Sane(x) /\ Sane(sh) /\ x + sh = 0 THEN 0   \* whatever the scale
                         ELSE IF ~(Sane(x) /\ Sane(sh) /\ Sane(sc) /\ Safe(x + sh, sc)) THEN BADVAL
                         ELSE ((x + sh) * sc) \div 256
UnscaleVal(x, sh, sc) == IF x = NAN THEN NAN
                         ELSE IF x = 0 /\ Sane(sh) THEN -sh
                         ELSE IF ~(Abs(x) < 7800000 /\ Sane(sh) /\ Sane(sc) /\ sc > 0) THEN BADVAL
                         ELSE (x * 256) \div sc - sh

(* one write per cell, however often a row is shown *)
MapCells(S, f, names, Fn(_, _)) ==
  LET F == S.fr[f]
      colOf == [x \in UNION {Rng(F.cols[c].c) : c \in names} |->
                  CHOOSE c \in names : x \in Rng(F.cols[c].c)]
  IN [S EXCEPT !.heap = TLCEval([x \in 1..Len(S.heap) |->
                            IF x \in DOMAIN colOf THEN Fn(colOf[x], S.heap[x]) ELSE S.heap[x]]),
               !.w = DOMAIN colOf]

(***************************************************************************)
(* OneHotEncoder.  Policies: 0 separate category if seen, 1 shared          *)
(* category, 2 separate category, 3 most frequent, 4 return an error.       *)
(* cats: sequence of [n, m, fb]; m: sequence of [k, c] (category, column);   *)
(* fb: columns for missing and for unknown categories                       *)
(***************************************************************************)
NormPolicies(mp0, up0) ==
  LET mp1 == IF mp0 = 1 /\ up0 = 4 THEN 2 ELSE mp0
      up1 == IF up0 = 1 /\ mp0 = 4 THEN 2 ELSE up0
      p   == IF mp1 = 1 THEN (IF up1 = 1 THEN <<0, 1>> ELSE <<up1, 1>>) ELSE <<mp1, up1>>
  IN <<p[1], IF p[2] = 0 THEN 2 ELSE p[2]>>
Freq(v, x)    == Cardinality({j \in 1..Len(v) : v[j] = x})
Seen(v)       == Rng(v) \ {MISSINT}
MostFreq(v)   == {x \in Seen(v) : \A y \in Seen(v) : Freq(v, x) >= Freq(v, y)}
CatMap(e)     == TLCEval([x \in {e.m[i].k : i \in 1..Len(e.m)} |->
                    e.m[CHOOSE i \in 1..Len(e.m) : e.m[i].k = x].c])
CatCols(e)    == {e.m[i].c : i \in 1..Len(e.m)}
OneHotColOk(v, mp, up, e) ==
  LET m  == CatMap(e)
      mf == {m[x] : x \in MostFreq(v) \cap DOMAIN m}
  IN /\ DOMAIN m = Seen(v) /\ Len(e.m) = Cardinality(Seen(v)) /\ Cardinality(CatCols(e)) = Len(e.m)
     /\ CASE mp = 0 -> IF MISSINT \in Rng(v) THEN e.fb[1] \notin CatCols(e) ELSE e.fb[1] \in mf
          [] mp = 2 -> e.fb[1] \notin CatCols(e)
          [] mp = 3 -> e.fb[1] \in mf
          [] OTHER  -> TRUE
     /\ CASE up = 1 -> e.fb[2] = e.fb[1]
          [] up = 2 -> e.fb[2] \notin CatCols(e) /\ (mp = 4 \/ e.fb[2] # e.fb[1])
          [] up = 3 -> e.fb[2] \in mf
          [] OTHER  -> TRUE
\* columns used by a trained column
UsedCols(e, mp, up) == CatCols(e) \cup (IF mp = 4 THEN {} ELSE {e.fb[1]}) \cup (IF up = 4 THEN {} ELSE {e.fb[2]})
OneHotFitOk(S, F, names, mp, up, cats, newcols) ==
  LET C == ByName(cats) IN
  /\ DOMAIN C = names /\ Len(cats) = Cardinality(names)
  /\ \A c \in names : OneHotColOk(Vals(S, F, c), mp, up, C[c])
  /\ \A c, d \in names : c # d => UsedCols(C[c], mp, up) \cap UsedCols(C[d], mp, up) = {}
  /\ Rng(newcols) = UNION {UsedCols(C[c], mp, up) : c \in names}
OneHotComp(mp, up, keep, cats) ==
  [mp |-> mp, up |-> up, keep |-> keep, cats |-> ByName(cats),
   new |-> UNION {UsedCols(cats[i], mp, up) : i \in 1..Len(cats)}]
Target(e, m, x) == IF x = MISSINT THEN e.fb[1] ELSE IF x \in DOMAIN m THEN m[x] ELSE e.fb[2]
NeedsError(o, m, x) == \/ x = MISSINT /\ o.mp = 4
                       \/ x # MISSINT /\ o.up = 4 /\ x \notin DOMAIN m
OneHotFails(S, o, F) == \E c \in DOMAIN o.cats : LET m == CatMap(o.cats[c]) IN
                           \E j \in 1..NRows(F) : NeedsError(o, m, S.heap[F.cols[c].c[j]])
(* applied to heap and frame; the result replaces or keeps trained columns *)
OneHotApply(S, o, F) ==
  LET tg == TLCEval([c \in DOMAIN o.cats |-> LET m == CatMap(o.cats[c]) IN
               [j \in 1..NRows(F) |-> Target(o.cats[c], m, S.heap[F.cols[c].c[j]])]])
      ns == SetToSeq(o.new)
      hit(k, j) == \E c \in DOMAIN o.cats : tg[c][j] = ns[k]
      sp == [k \in 1..Len(ns) |-> [n |-> ns[k], t |-> "b", s |-> FALSE,
                v |-> TLCEval([j \in 1..NRows(F) |-> IF hit(k, j) THEN ONE ELSE 0])]]
      r == WithCols(S.heap, F, sp)
  IN IF DOMAIN o.cats = {} THEN [heap |-> S.heap, F |-> F]
     ELSE [heap |-> r.heap, F |-> IF o.keep THEN r.F ELSE [r.F EXCEPT !.cols = Less(@, DOMAIN o.cats)]]
OpOneHot(S, id, src, o) ==
  LET r == OneHotApply(S, o, ViewOf(S, src))
  IN [S EXCEPT !.heap = r.heap, !.w = {}, !.fr = (id :> [r.F EXCEPT !.org = id]) @@ @]

(***************************************************************************)
(* AutoPreprocessor: imputer and scaler on the float columns, hash encoder  *)
(* on the string columns, one-hot encoder on the result, or on the integer  *)
(* columns if there is no string column to encode.                          *)
(* a = [imp, sh, sc, hash, oh]; imp, sh, sc: name -> parameter              *)
(***************************************************************************)
AutoFloats(F, excl)  == ColsOf(F, "f") \ excl
AutoStrings(F, excl) == StrCols(F) \ excl
AutoCats(F, excl)    == IF AutoStrings(F, excl) # {} THEN AutoStrings(F, excl) ELSE ColsOf(F, "i") \ excl
AutoFitOk(S, F, opt, excl, st, hf) ==
  LET fl == AutoFloats(F, excl)
      T  == [S EXCEPT !.hf = hf]
      V  == WithCols(S.heap, F, HashSpecs(T, F, AutoStrings(F, excl), hf))
      H  == [S EXCEPT !.heap = V.heap]
      np == NormPolicies(0, 1)
  IN /\ opt.imp => ImpFitOk(S, F, fl, 0, st.imp)
     /\ opt.sc  => ScFitOk(S, F, fl, [mm |-> FALSE, ce |-> TRUE, sc |-> TRUE], st.sh, st.scl)
     /\ Rng(st.hash) = AutoStrings(F, excl)
     /\ AutoCats(F, excl) # {} =>
          OneHotFitOk(H, V.F, AutoCats(F, excl), np[1], np[2], st.cats, st.newcols)
AutoComp(opt, st) ==
  LET np == NormPolicies(0, 1) IN
  [k |-> "auto", imp |-> IF opt.imp THEN ByName(st.imp) ELSE NullFn,
   sh |-> IF opt.sc THEN ByName(st.sh) ELSE NullFn, sc |-> IF opt.sc THEN ByName(st.scl) ELSE NullFn,
   hash |-> Rng(st.hash), oh |-> OneHotComp(np[1], np[2], FALSE, st.cats)]
AutoVal(a, c, x) ==
  LET y == IF c \in DOMAIN a.imp THEN ImputeVal(x, a.imp[c]) ELSE x
  IN IF c \in DOMAIN a.sh THEN ScaleVal(y, a.sh[c].tok, a.sc[c].tok) ELSE y
(* det: columns that are copied although they do not change *)
OpAutoTransform(S, id, src, a, det, hf) ==
  LET V  == ViewOf(S, src)
      fl == DOMAIN a.imp \cup DOMAIN a.sh \cup det
      sp == AsSpecs(S, V, fl)
      r1 == WithCols(S.heap, V, [k \in 1..Len(sp) |->
              [sp[k] EXCEPT !.v = TLCEval([j \in 1..Len(@) |-> AutoVal(a, sp[k].n, @[j])])]])
      S1 == [S EXCEPT !.heap = r1.heap, !.hf = hf]
      r2 == WithCols(r1.heap, r1.F, HashSpecs(S1, r1.F, a.hash, hf))
      S2 == [S1 EXCEPT !.heap = r2.heap]
      r3 == OneHotApply(S2, a.oh, r2.F)
  IN [S2 EXCEPT !.heap = r3.heap, !.w = {}, !.fr = (id :> [r3.F EXCEPT !.org = id]) @@ @]

(***************************************************************************)
(* Linear regression.  m = [feats, ws, sh, sc]                              *)
(***************************************************************************)
LinFeatures(F, target) == (ColsOf(F, "f") \cup ColsOf(F, "b")) \ {target}
Dot(S, F, m, j) ==
  FoldSeq(LAMBDA i, acc : acc + (m.ws[i] * S.heap[F.cols[m.feats[i]].c[j]]) \div 256, 0, Ident(Len(m.feats)))
(* the target is centred and scaled by parameters of the training rows      *)
LinScalerOk(v, sh, sc) ==
  LET opt == [mm |-> FALSE, ce |-> TRUE, sc |-> TRUE] IN
  /\ Len(sh) = 1 /\ Len(sc) = 1
  /\ ShiftOk(v, opt, sh[1]) /\ ScaleOk(v, opt, sc[1])
PredVal(S, F, m, j) == UnscaleVal(Dot(S, F, m, j), m.sh, m.sc)
OpPredict(S, id, src, m, col, perm) ==
  LET V == Select(ViewOf(S, src), perm)
      sp == <<[n |-> col, t |-> "f", s |-> FALSE, v |-> TLCEval([j \in 1..NRows(V) |-> PredVal(S, V, m, j)])]>>
      r == WithCols(S.heap, V, sp)
  IN [S EXCEPT !.heap = r.heap, !.w = {}, !.fr = (id :> [r.F EXCEPT !.org = id]) @@ @]
AbsErr(u, v)  == Sum([j \in 1..Len(u) |-> Abs(u[j] - v[j])])
SqErr(u, v)   == Sum([j \in 1..Len(u) |-> ((u[j] - v[j]) * (u[j] - v[j])) \div 256])
=============================================================================
