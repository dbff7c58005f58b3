------------------------------ MODULE PreprocMC ------------------------------
(***************************************************************************)
(* Bounded models of the trained components: small training and application *)
(* frames, every option, and the properties C17 to C21 stated on what the   *)
(* frames show.  The parameters a component learns are computed here for    *)
(* data where they are exact; what the real component learns is checked     *)
(* against the data when the printed histories are replayed on it.          *)
(***************************************************************************)
EXTENDS Csv, Train, Json

CONSTANTS Group, Rich, Emit

VARIABLES S, h
vars == <<S, h>>

STR(k) == 700000000 + k
Col(nm, t, s, v) == [n |-> nm, t |-> t, s |-> s, v |-> v]
NewOp(id, cols) == [op |-> "New", f |-> id, n |-> Len(cols[1].v), cols |-> cols, cpu |-> 2, enc |-> "utf8", via |-> "set"]
MkNew(T, o) == Create(T, o.f, o.n, o.cols, o.cpu, o.enc)
Load(ops) == TLCEval(FoldSeq(LAMBDA o, T : MkNew(T, o), InitState, ops))
G(x) == Group = x

SeqsOf(X, lo, hi) == UNION {[1..m -> X] : m \in lo..hi}

(************************* what training yields ****************************)
TokP(x) == [tok |-> x, q |-> 0, s |-> 0, t |-> x]
Mean(v) == LET u == NonMissing(v) IN IF Len(u) = 0 THEN 0 ELSE Sum(u) \div Len(u)
MeanExact(v) == LET u == NonMissing(v) IN IF Len(u) = 0 THEN TRUE ELSE Sum(u) % Len(u) = 0
\* deviations, as sums of squares of tokens
SqDev(v) == LET u == NonMissing(v)
                m == Mean(v)
            IN FoldSeq(LAMBDA x, acc : acc + (x - m) * (x - m), 0, u)
\* scale tokens k with k = 256 / std, std = sqrt(SqDev/n) / 256
ScaleTok(v) == LET n == Len(NonMissing(v)) IN
  IF n = 0 THEN {256} ELSE IF SqDev(v) = 0 THEN {256}
  ELSE {k \in {32, 64, 128, 256, 512, 1024, 2048} : (65536 \div k) * (65536 \div k) * n = SqDev(v)}
MMShift(v) == LET u == NonMissing(v) IN IF Len(u) = 0 THEN 0 ELSE -SeqMin(u)
MMScale(v) == LET u == NonMissing(v) IN
  IF Len(u) = 0 THEN {256} ELSE IF SeqMax(u) = SeqMin(u) THEN {256}
  ELSE {k \in {32, 64, 128, 256, 512, 1024} : k * (SeqMax(u) - SeqMin(u)) = 65536}
Exact(x, sh, sc) == IF x = NAN THEN TRUE ELSE IF Abs(x + sh) > 500000 THEN FALSE ELSE ((x + sh) * sc) % 256 = 0
V(f, c) == TLCEval(Vals(S, S.fr[f], c))
V2(f, c) == TLCEval(Vals(S', S'.fr[f], c))
Fl(f) == ColsOf(S.fr[f], "f")

(******************************* steps *************************************)
Step(o, S2) == /\ S' = TLCEval(S2) /\ h' = Append(h, o)
Final(o, S2) == Step(o, S2) /\ (Emit => PrintT(ToJson(h')))
K == Len(h)
Op == h[K].op
SetCmp(T, c, x) == [T EXCEPT !.cmp = (c :> x) @@ @, !.w = {}]

(*------------------------------ one-hot ----------------------------------*)
\* canonical names of the columns
Name(c, k) == IF k = 1 THEN c \o "_x" ELSE IF k = 2 THEN c \o "_y" ELSE c \o "_z"
CatSeq(v) == SetToSortSeq(Seen(v), <)
Cats(v, c, np) ==
  LET m == [i \in 1..Len(CatSeq(v)) |-> [k |-> CatSeq(v)[i], c |-> Name(c, i)]]
      mf == Name(c, CHOOSE i \in 1..Len(m) : m[i].k \in MostFreq(v))
      fb1 == CASE np[1] = 0 -> IF MISSINT \in Rng(v) THEN c \o "_m" ELSE mf
               [] np[1] = 3 -> mf
               [] OTHER     -> c \o "_m"
      fb2 == CASE np[2] = 1 -> fb1 [] np[2] = 3 -> mf [] OTHER -> c \o "_u"
  IN [n |-> c, m |-> m, fb |-> <<fb1, fb2>>]
NeedSeen(np, v) == (np[1] \in {0, 3} \/ np[2] = 3) => Seen(v) # {}
TrainInts == IF Rich THEN SeqsOf({MISSINT, 0, 256, 512}, 1, 3) ELSE SeqsOf({MISSINT, 0, 256}, 1, 3)
TestInts  == {<<MISSINT>>, <<1024>>, <<0>>, <<256, 0, 1024, MISSINT>>, <<0, 0>>, <<1024, 256>>}
OneHotInit ==
  \/ \E v \in TrainInts : h = <<NewOp(1, <<Col("c", "i", FALSE, v), Col("x", "f", FALSE, [j \in 1..Len(v) |-> 128 * j])>>)>>
  \* two categorical columns: the categories of one do not mix with those of the other
  \/ \E v, w \in SeqsOf({MISSINT, 0, 256}, 2, 2) :
       h = <<NewOp(1, <<Col("c", "i", FALSE, v), Col("d", "i", FALSE, w)>>)>>
OneHotNext ==
  CASE K = 1 -> \E v \in TestInts : LET o == NewOp(2, <<Col("c", "i", FALSE, v), Col("d", "i", FALSE, v), Col("s", "b", FALSE, [j \in 1..Len(v) |-> ONE])>>) IN
                  Step(o, MkNew(S, o))
    [] K = 2 -> \E mp, up \in 0..4, keep \in BOOLEAN :
         LET np == NormPolicies(mp, up)
             cs == SetToSeq(ColsOf(S.fr[1], "i"))
             cats == [i \in 1..Len(cs) |-> Cats(V(1, cs[i]), cs[i], np)]
         IN /\ \A i \in 1..Len(cs) : NeedSeen(np, V(1, cs[i]))
            /\ (Len(cs) = 2 => keep = FALSE)
            /\ Step([op |-> "OneHotFit", c |-> 1, f |-> 1, mp |-> mp, up |-> up, keep |-> keep],
                    SetCmp(S, 1, [k |-> "oh", o |-> OneHotComp(np[1], np[2], keep, cats)]))
    [] K = 3 -> Step([op |-> "OneHotTransform", c |-> 1, src |-> 2, f |-> 3],
                     IF OneHotFails(S, S.cmp[1].o, S.fr[2]) THEN [S EXCEPT !.w = {}] ELSE OpOneHot(S, 3, 2, S.cmp[1].o))
    [] K = 4 -> Final([op |-> "OneHotTransform", c |-> 1, src |-> 1, f |-> 4],
                      IF OneHotFails(S, S.cmp[1].o, S.fr[1]) THEN [S EXCEPT !.w = {}] ELSE OpOneHot(S, 4, 1, S.cmp[1].o))
    [] OTHER -> FALSE

(*------------------------ imputer and scaler -----------------------------*)
FloatData == {<<256, 768>>, <<NAN, 256, 768>>, <<256, NAN>>, <<NAN>>, <<512, 512>>, <<-256, 256, NAN, NAN>>,
              <<0, 1024, 0, 1024>>, <<-64, 64>>, <<51200000, 51200064>>}
             \cup IF Rich THEN SeqsOf({NAN, -512, 0, 256, 512}, 1, 3) ELSE {}
\* second column: other values, missing where the first one is not
Second(v) == [j \in 1..Len(v) |-> IF j % 2 = 0 THEN NAN ELSE 128]
ScaleInit == \E v \in FloatData : h = <<NewOp(1, <<Col("a", "f", FALSE, v), Col("b", "f", FALSE, Second(v)),
                                                   Col("c", "i", FALSE, [j \in 1..Len(v) |-> 256 * j])>>)>>
Picks(n) == {Ident(n), ReverseIdx(n), <<n, n, 1>>, <<1>>, <<n>>}
Constant(v) == \A x, y \in Rng(NonMissing(v)) : x = y
Fitted(f, o) ==  \* [sh, sc] for options o, or nothing
  \A c \in Fl(f) :
    \* the scale of constant data is not specified: it shows in no value if all data are the same and centred
    IF (o.mm \/ o.sc) /\ Constant(V(f, c)) /\ ~(f = 1 /\ o.ce) THEN FALSE
    ELSE IF o.mm THEN MMScale(V(f, c)) # {}
    ELSE IF ~MeanExact(V(f, c)) THEN FALSE ELSE IF o.sc THEN ScaleTok(V(f, c)) # {} ELSE TRUE
ShOf(f, o) == [c \in (IF o.mm \/ o.ce THEN Fl(f) ELSE {}) |-> TokP(IF o.mm THEN MMShift(V(f, c)) ELSE -Mean(V(f, c)))]
ScOf(f, o) == [c \in (IF o.mm \/ o.sc THEN Fl(f) ELSE {}) |->
                 TokP(CHOOSE k \in (IF o.mm THEN MMScale(V(f, c)) ELSE ScaleTok(V(f, c))) : TRUE)]
AllExact(f, C) == \A c \in DOMAIN C.sh \cup DOMAIN C.sc : \A j \in 1..NRows(S.fr[f]) :
                    Exact(V(f, c)[j], TokOf(C.sh, c, 0), TokOf(C.sc, c, ONE))
DoScale(T, f, C, inv) == MapCells(T, f, DOMAIN C.sh \cup DOMAIN C.sc,
    LAMBDA c, x : IF inv THEN UnscaleVal(x, TokOf(C.sh, c, 0), TokOf(C.sc, c, ONE)) ELSE ScaleVal(x, TokOf(C.sh, c, 0), TokOf(C.sc, c, ONE)))
ScaleNext ==
  CASE K = 1 -> \E i \in Picks(NRows(S.fr[1])) : Step([op |-> "IndexView", f |-> 2, src |-> 1, idx |-> i], OpIndexView(S, 2, 1, i))
    [] K = 2 ->
         \/ \E f \in {1, 2}, pol \in 0..2 : (pol = 0 => \A c \in Fl(f) : MeanExact(V(f, c))) /\
              Step([op |-> "ImputerFit", c |-> 1, f |-> f, pol |-> pol],
                   SetCmp(S, 1, [k |-> "imp", P |-> [c \in Fl(f) |-> TokP(CASE pol = 1 -> 0 [] pol = 2 -> ONE [] OTHER -> Mean(V(f, c)))]]))
         \/ \E f \in {1, 2}, o \in [mm : BOOLEAN, ce : BOOLEAN, sc : BOOLEAN] : (o.mm => o.ce /\ o.sc) /\ Fitted(f, o) /\
              Step([op |-> "ScalerFit", c |-> 1, f |-> f, opt |-> o], SetCmp(S, 1, [k |-> "sc", sh |-> ShOf(f, o), sc |-> ScOf(f, o)]))
    [] K = 3 -> \E f \in {1, 2} :
         IF S.cmp[1].k = "imp"
         THEN Step([op |-> "ImputerTransform", c |-> 1, f |-> f],
                   MapCells(S, f, DOMAIN S.cmp[1].P, LAMBDA c, x : ImputeVal(x, S.cmp[1].P[c])))
         ELSE AllExact(f, S.cmp[1]) /\
              Step([op |-> "ScalerTransform", c |-> 1, f |-> f, inv |-> FALSE], DoScale(S, f, S.cmp[1], FALSE))
    [] K = 4 ->
         IF S.cmp[1].k = "imp" THEN Final([op |-> "Columns", c |-> 1], [S EXCEPT !.w = {}])
         ELSE \E f \in {h[4].f} : Final([op |-> "ScalerTransform", c |-> 1, f |-> f, inv |-> TRUE], DoScale(S, f, S.cmp[1], TRUE))
    [] OTHER -> FALSE

(*------------------------- auto-preprocessor -----------------------------*)
AutoData ==
  LET a == {<<256, 768>>, <<NAN, 256, 768>>, <<NAN>>}
      s(n) == {[j \in 1..n |-> IF j = 1 THEN NIL ELSE STR(j)], [j \in 1..n |-> STR(1)]}
  IN {<<Col("a", "f", FALSE, v)>> \o x \o y \o z :
        v \in a, x \in {<<>>, <<Col("i", "i", FALSE, <<>>)>>}, y \in {<<>>, <<Col("s", "o", TRUE, <<>>)>>},
        z \in {<<>>, <<Col("b", "b", FALSE, <<>>), Col("o", "o", FALSE, <<>>)>>}}
Pad(cs, n, k) == [i \in 1..Len(cs) |-> IF Len(cs[i].v) > 0 THEN cs[i] ELSE [cs[i] EXCEPT
   !.v = [j \in 1..n |-> CASE cs[i].t = "i" -> IF (j + k) % 3 = 0 THEN MISSINT ELSE 256 * ((j + k) % 2)
                           [] cs[i].t = "b" -> 256 * (j % 2)
                           [] cs[i].s -> IF (j + k) % 3 = 0 THEN NIL ELSE STR((j + k) % 4)
                           [] OTHER -> 700500000 + j]]]
AutoInit == \E cs \in AutoData : \E k \in 0..1 : h = <<NewOp(1, Pad(cs, Len(cs[1].v), k))>>
Other(cs) == LET n == 4 IN Pad([i \in 1..Len(cs) |-> [cs[i] EXCEPT !.v = IF cs[i].t = "f" THEN <<512, NAN, 256, 512>> ELSE <<>>]], n, 5)
HF == [x \in {STR(k) : k \in 0..40} |-> 1200000000 + (x - 700000000)]
AutoStd(F, opt, excl) ==
  LET fl == AutoFloats(F, excl) IN
  [imp |-> IF opt.imp THEN [c \in fl |-> TokP(Mean(Vals(S, F, c)))] ELSE NullFn,
   sh  |-> IF opt.sc THEN [c \in fl |-> TokP(-Mean(Vals(S, F, c)))] ELSE NullFn,
   sc  |-> IF opt.sc THEN [c \in fl |-> TokP(CHOOSE k \in ScaleTok(Vals(S, F, c)) : TRUE)] ELSE NullFn]
\* with imputing on, scaling is learnt from the imputed values (or from the values before: the mean is the same)
AutoTrained(F, opt, excl) ==
  LET st == AutoStd(F, opt, excl)
      np == NormPolicies(0, 1)
      hs == AutoStrings(F, excl)
      H  == WithCols(S.heap, F, HashSpecs([S EXCEPT !.hf = HF], F, hs, HF))
      HS == [S EXCEPT !.heap = H.heap]
      cs == SetToSeq(AutoCats(F, excl))
  IN [k |-> "auto", imp |-> st.imp, sh |-> st.sh, sc |-> st.sc, hash |-> hs,
      oh |-> OneHotComp(np[1], np[2], FALSE, [i \in 1..Len(cs) |-> Cats(TLCEval(Vals(HS, H.F, cs[i])), cs[i], np)])]
AutoNeeds(F, opt, excl) ==
  /\ Names(F) \ excl # {}
  /\ \A c \in AutoCats(F, excl) : Rng(Vals(S, F, c)) \ {NIL, MISSINT} # {}
AutoNext ==
  CASE K = 1 -> LET o == NewOp(2, Other(h[1].cols)) IN Step(o, MkNew(S, o))
    [] K = 2 -> \E opt \in [imp : BOOLEAN, sc : BOOLEAN], ft \in BOOLEAN :
         \E excl \in {X \in SUBSET Names(S.fr[1]) : Cardinality(X) <= IF Rich THEN 5 ELSE 1} :
           LET F == S.fr[1]
               o == [op |-> "AutoFit", c |-> 1, src |-> 1, opt |-> opt, excl |-> SetToSeq(excl), ft |-> ft, f |-> IF ft THEN 3 ELSE 0, again |-> FALSE]
           IN /\ AutoNeeds(F, opt, excl)
              /\ LET a == TLCEval(AutoTrained(F, opt, excl))
                     S1 == SetCmp([S EXCEPT !.hf = HF], 1, a)
                 IN Step(o, IF ft THEN OpAutoTransform(S1, 3, 1, a, {}, HF) ELSE S1)
    [] K = 3 -> Step([op |-> "AutoTransform", c |-> 1, src |-> 1, f |-> 4], OpAutoTransform(S, 4, 1, S.cmp[1], {}, HF))
    [] K = 4 -> Step([op |-> "AutoTransform", c |-> 1, src |-> 2, f |-> 5], OpAutoTransform(S, 5, 2, S.cmp[1], {}, HF))
    [] K = 5 -> Step([op |-> "IndexView", f |-> 6, src |-> 2, idx |-> <<3, 1, 3>>], OpIndexView(S, 6, 2, <<3, 1, 3>>))
    [] K = 6 -> Final([op |-> "AutoTransform", c |-> 1, src |-> 6, f |-> 7], OpAutoTransform(S, 7, 6, S.cmp[1], {}, HF))
    [] OTHER -> FALSE

(*--------------------------- linear regression ---------------------------*)
LinInit == \E v \in {<<256, 768>>, <<256, 768, 768, 256>>, <<-128, 384>>, <<0, 512, 512, 0>>} :
             LET n == Len(v) IN
             \E x \in {<<>>, <<Col("x", "f", FALSE, [j \in 1..n |-> 256 * (j - 2)])>>}, y \in {<<>>, <<Col("y", "b", FALSE, [j \in 1..n |-> 256 * (j % 2)])>>} :
               x \o y # <<>> /\
               h = <<NewOp(1, <<Col("t", "f", FALSE, v), Col("i", "i", FALSE, [j \in 1..n |-> 256 * j])>> \o x \o y)>>
LinNext ==
  CASE K = 1 -> \E i \in Picks(NRows(S.fr[1])) : Step([op |-> "IndexView", f |-> 2, src |-> 1, idx |-> i], OpIndexView(S, 2, 1, i))
    [] K = 2 -> \E f \in {1, 2}, low \in BOOLEAN : MeanExact(V(f, "t")) /\ SqDev(V(f, "t")) > 0 /\ ScaleTok(V(f, "t")) # {} /\
         LET ft == SetToSeq(LinFeatures(S.fr[f], "t")) IN
         Step([op |-> "LinFit", c |-> 1, f |-> f, target |-> "t",
               par |-> [epochs |-> 2, batch |-> 2, lr |-> 10, low |-> low, mom |-> 0, decay |-> 0]],
              SetCmp(S, 1, [k |-> "lin", m |-> [feats |-> ft, ws |-> [i \in 1..Len(ft) |-> 0], sh |-> -Mean(V(f, "t")),
                                                sc |-> CHOOSE k \in ScaleTok(V(f, "t")) : TRUE]]))
    [] K = 3 -> \E w \in {256, -256, 512} : LET m == S.cmp[1].m IN   \* the same for every feature: their order is not specified
         Step([op |-> "LinSet", c |-> 1, ws |-> <<w>>],
              SetCmp(S, 1, [k |-> "lin", m |-> [m EXCEPT !.ws = [i \in 1..Len(@) |-> w]]]))
    [] K = 4 -> \E f \in {1, 2}, col \in {"t", "p", "x", "i"} :
         Step([op |-> "Predict", c |-> 1, src |-> f, f |-> 3, col |-> col],
              OpPredict(S, 3, f, S.cmp[1].m, col, Ident(NRows(S.fr[f]))))
    [] K = 5 -> \E mse \in BOOLEAN : LET f == h[5].src IN
         Final([op |-> "Metric", f |-> 1, g |-> 1, col |-> "t", gcol |-> "t", mse |-> mse], [S EXCEPT !.w = {}])
    [] OTHER -> FALSE

(*------------------------------- training --------------------------------*)
\* targets of mean 1 and standard deviation 1/2, features in halves, and a hidden row
TrainData == {
  [y |-> <<384, 128, 128, 384>>, x |-> <<<<128, 256, -128, 64 * 4>>, <<0, 256, 512, -256>>>>],
  [y |-> <<384, 128>>, x |-> <<<<256, 384>>>>],
  [y |-> <<384, 128, 384, 128>>, x |-> <<<<256, -256, 256, -256>>, <<-128, 128, -128, 128>>>>],
  [y |-> <<128, 384>>, x |-> <<<<0, 0>>, <<-384, 128>>>>]}
TrainFrame(d) ==
  <<Col("t", "f", FALSE, d.y \o <<5120>>), Col("i", "i", FALSE, [j \in 1..(Len(d.y) + 1) |-> 256 * j])>> \o
  [k \in 1..Len(d.x) |-> Col(IF k = 1 THEN "x" ELSE "z", "f", FALSE, d.x[k] \o <<2560>>)] \o
  (IF Len(d.y) = 4 THEN <<>> ELSE <<Col("b", "b", FALSE, [j \in 1..(Len(d.y) + 1) |-> 256 * (j % 2)])>>)
TrainInit == \E d \in TrainData : h = <<NewOp(1, TrainFrame(d))>>
TrainPars == [epochs : 0..2, batch : IF Rich THEN 0..5 ELSE {0, 1, 2, 3}, mom : {0, 2}, dec : {<<0, 1>>, <<1, 4>>, <<1, 1>>},
              lrden : IF Rich THEN {8, 16, 40} ELSE {16}, low : BOOLEAN]
ParOf(q) == [epochs |-> q.epochs, batch |-> q.batch, mom |-> q.mom, dn |-> q.dec[1], dd |-> q.dec[2], lrden |-> q.lrden,
             low |-> q.low, verbose |-> q.low]
TrainNext ==
  CASE K = 1 -> LET n == Len(h[1].cols[1].v) - 1 IN
         \E i \in {Ident(n), ReverseIdx(n)} : Step([op |-> "IndexView", f |-> 2, src |-> 1, idx |-> i], OpIndexView(S, 2, 1, i))
    [] K = 2 -> \E q \in TrainPars : Step([op |-> "LinTrain", f |-> 2, target |-> "t", par |-> ParOf(q), rseed |-> 7 + q.epochs], [S EXCEPT !.w = {}])
    [] K = 3 -> Final([h[3] EXCEPT !.par.low = ~@, !.rseed = @ + 20], [S EXCEPT !.w = {}])
    [] OTHER -> FALSE

(*----------------------------- serialisation -----------------------------*)
\* every component, trained, copied through JSON, and both applied to the same frames
JsonInit == \E v \in {<<256, 768>>, <<NAN, 256, 768>>} : LET n == Len(v) IN
  h = <<NewOp(1, <<Col("a", "f", FALSE, v), Col("i", "i", FALSE, [j \in 1..n |-> 256 * (j % 2)]),
                   Col("s", "o", TRUE, [j \in 1..n |-> IF j = 2 THEN NIL ELSE STR(j)])>>)>>
JFit ==
  {[op |-> "ImputerFit", c |-> 1, f |-> 1, pol |-> p] : p \in 0..2}
  \cup {[op |-> "ScalerFit", c |-> 1, f |-> 1, opt |-> o] : o \in [mm : BOOLEAN, ce : BOOLEAN, sc : BOOLEAN]}
  \cup {[op |-> "HashFit", c |-> 1, f |-> 1]}
  \cup {[op |-> "OneHotFit", c |-> 1, f |-> 1, mp |-> mp, up |-> up, keep |-> k] : mp, up \in 0..4, k \in BOOLEAN}
  \cup {[op |-> "AutoFit", c |-> 1, src |-> 1, opt |-> o, excl |-> e, ft |-> FALSE, f |-> 0, again |-> FALSE] :
          o \in [imp : BOOLEAN, sc : BOOLEAN], e \in {<<>>, <<"a">>, <<"s">>, <<"i">>, <<"s", "i">>}}
JComp(o) ==
  LET F == S.fr[1]
      np == NormPolicies(o.mp, o.up)
  IN CASE o.op = "ImputerFit" -> [k |-> "imp", P |-> [c \in Fl(1) |-> TokP(CASE o.pol = 1 -> 0 [] o.pol = 2 -> ONE [] OTHER -> Mean(V(1, c)))]]
       [] o.op = "ScalerFit" -> [k |-> "sc", sh |-> ShOf(1, o.opt), sc |-> ScOf(1, o.opt)]
       [] o.op = "HashFit" -> [k |-> "hash", cols |-> StrCols(F)]
       [] o.op = "OneHotFit" -> [k |-> "oh", o |-> OneHotComp(np[1], np[2], o.keep, <<Cats(V(1, "i"), "i", np)>>)]
       [] OTHER -> AutoTrained(F, o.opt, Rng(o.excl))
JTransform(c, src, f) ==
  LET x == S.cmp[c] IN
  CASE x.k = "imp" -> MapCells(S, src, DOMAIN x.P, LAMBDA d, y : ImputeVal(y, x.P[d]))
    [] x.k = "sc" -> DoScale(S, src, x, FALSE)
    [] x.k = "hash" -> OpHash(S, f, src, x.cols, HF)
    [] x.k = "oh" -> IF OneHotFails(S, x.o, S.fr[src]) THEN [S EXCEPT !.w = {}] ELSE OpOneHot(S, f, src, x.o)
    [] OTHER -> OpAutoTransform(S, f, src, x, {}, HF)
JApply(c, src, f) ==
  LET k == S.cmp[c].k IN
  CASE k = "imp" -> [op |-> "ImputerTransform", c |-> c, f |-> src]
    [] k = "sc" -> [op |-> "ScalerTransform", c |-> c, f |-> src, inv |-> FALSE]
    [] k = "hash" -> [op |-> "HashTransform", c |-> c, src |-> src, f |-> f]
    [] k = "oh" -> [op |-> "OneHotTransform", c |-> c, src |-> src, f |-> f]
    [] OTHER -> [op |-> "AutoTransform", c |-> c, src |-> src, f |-> f]
JsonNext ==
  CASE K = 1 -> \E o \in JFit : Step(o, SetCmp([S EXCEPT !.hf = HF], 1, JComp(o)))
    [] K = 2 -> Step([op |-> "Json", c |-> 1, c2 |-> 2], SetCmp(S, 2, S.cmp[1]))
    [] K = 3 -> Step([op |-> "Columns", c |-> 2], [S EXCEPT !.w = {}])
    [] K \in {4, 5} -> \E v \in {<<256, 1024, MISSINT>>, <<256>>} : (K = 5 => v = h[5].cols[2].v) /\
         LET n == Len(v)
             o == NewOp(K - 2, <<Col("a", "f", FALSE, [j \in 1..n |-> IF j = 2 THEN NAN ELSE 256]), Col("i", "i", FALSE, v),
                                 Col("s", "o", TRUE, [j \in 1..n |-> IF j = 3 THEN NIL ELSE STR(j + 1)])>>)
         IN Step(o, MkNew(S, o))
    [] K = 6 -> Step(JApply(1, 2, 4), JTransform(1, 2, 4))
    [] K = 7 -> Final(JApply(2, 3, 5), JTransform(2, 3, 5))
    [] OTHER -> FALSE

InitH == CASE G("onehot") -> OneHotInit [] G("scale") -> ScaleInit [] G("auto") -> AutoInit [] G("lin") -> LinInit [] G("train") -> TrainInit [] OTHER -> JsonInit
Init == InitH /\ S = Load(h)
Next == CASE G("onehot") -> OneHotNext [] G("scale") -> ScaleNext [] G("auto") -> AutoNext [] G("lin") -> LinNext [] G("train") -> TrainNext [] OTHER -> JsonNext
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
L == h'[Len(h')]
Is(ops) == Len(h') > Len(h) /\ L.op \in ops
KeepsAll == \A g \in DOMAIN S.fr : Shown(S, g) = Shown(S', g)
Consistent == \A f \in DOMAIN S.fr : \A c \in Names(S.fr[f]) : Len(S.fr[f].cols[c].c) = NRows(S.fr[f])

(* C17 *)
OneHotExact == [][
  G("onehot") /\ Is({"OneHotTransform"}) /\ S.cmp[L.c].k = "oh" =>
    LET o == S.cmp[L.c].o
        F == S.fr[L.src]
        pol == h[3]       \* the policies asked for
        np == NormPolicies(o.mp, o.up)
        hot(c, j) == {x \in UsedCols(o.cats[c], o.mp, o.up) : V2(L.f, x)[j] = ONE}
        train(c) == Vals(S, S.fr[1], c)
    IN /\ KeepsAll
       /\ (L.f \notin DOMAIN S'.fr) <=> \E c \in DOMAIN o.cats : \E j \in 1..NRows(F) :
             LET x == V(L.src, c)[j] IN
             \/ x = MISSINT /\ NormPolicies(pol.mp, pol.up)[1] = 4
             \/ x # MISSINT /\ x \notin Rng(train(c)) /\ NormPolicies(pol.mp, pol.up)[2] = 4
       /\ L.f \in DOMAIN S'.fr =>
            /\ \A c \in DOMAIN o.cats : (c \in Names(S'.fr[L.f])) <=> o.keep
            /\ \A c \in Names(F) \ DOMAIN o.cats : V2(L.f, c) = V(L.src, c)
            /\ \A c \in DOMAIN o.cats : \A j \in 1..NRows(F) :
                 /\ Cardinality(hot(c, j)) = 1
                 \* seen categories have columns of their own, whatever the row
                 /\ \A i \in 1..NRows(F) :
                      LET x == V(L.src, c)[i]
                          y == V(L.src, c)[j]
                      IN x \in Rng(train(c)) \ {MISSINT} /\ y \in Rng(train(c)) \ {MISSINT} => ((hot(c, i) = hot(c, j)) <=> (x = y))
                 \* separate columns are not those of a category
                 /\ (V(L.src, c)[j] = MISSINT /\ o.mp = 2) => hot(c, j) \cap CatCols(o.cats[c]) = {}
                 /\ (V(L.src, c)[j] \notin Rng(train(c)) \cup {MISSINT} /\ o.up = 2) => hot(c, j) \cap CatCols(o.cats[c]) = {}
  ]_vars

(* C18 *)
OutsideKept(X) ==  \* only trained columns of the cells of frame L.f change
  \A g \in DOMAIN S.fr : \A c \in Names(S.fr[g]) : \A j \in 1..NRows(S.fr[g]) :
    S.fr[g].cols[c].c[j] \notin UNION {Rng(S.fr[L.f].cols[d].c) : d \in X} => V2(g, c)[j] = V(g, c)[j]
Imputes == [][
  Is({"ImputerTransform"}) =>
    LET P == S.cmp[L.c].P IN
    /\ OutsideKept(DOMAIN P)
    /\ \A c \in DOMAIN P : \A j \in 1..NRows(S.fr[L.f]) :
         V2(L.f, c)[j] = IF V(L.f, c)[j] = NAN THEN P[c].tok ELSE V(L.f, c)[j]
  ]_vars
Variance(v) == LET u == NonMissing(v) IN SqDev(v) \div Max2(Len(u), 1)
Scales == [][
  G("scale") /\ Is({"ScalerTransform"}) =>
    LET C == S.cmp[L.c]
        fit == h[3]
        X == DOMAIN C.sh \cup DOMAIN C.sc
    IN /\ OutsideKept(X)
       /\ ~L.inv => \A c \in X :
            LET u == NonMissing(V2(L.f, c)) IN
            /\ \A j \in 1..NRows(S.fr[L.f]) : (V2(L.f, c)[j] = NAN) <=> (V(L.f, c)[j] = NAN)
            \* the data it was trained on
            /\ (fit.op = "ScalerFit" /\ fit.f = L.f /\ Len(u) > 0) =>
                 /\ fit.opt.mm => SeqMin(u) = 0 /\ (SeqMax(u) = 256 \/ SeqMax(u) = 0)
                 /\ (~fit.opt.mm /\ fit.opt.ce) => Sum(u) = 0
                 /\ (~fit.opt.mm /\ fit.opt.sc) => Variance(u) \in {65536, 0}
       \* the inverse brings the values back
       /\ L.inv => \A c \in X : V2(L.f, c) = [j \in 1..NRows(S.fr[L.f]) |->
                      LET d == [i \in 1..Len(h[1].cols) |-> h[1].cols[i].n]
                          col == h[1].cols[CHOOSE i \in 1..Len(d) : d[i] = c].v
                      IN col[S.fr[L.f].rows[j]]]
  ]_vars

(* C19 *)
AutoSame == [][ G("auto") =>
  /\ Is({"AutoFit", "AutoTransform"}) => KeepsAll
  \* what FitTransform returned is what the transformation of the training frame returns
  /\ Is({"AutoTransform"}) /\ L.f = 4 /\ 3 \in DOMAIN S.fr => Shown(S', 4) = Shown(S, 3)
  /\ Is({"AutoTransform"}) =>
       LET a == S.cmp[L.c]
           ex == IF Len(h) >= 3 /\ h[3].op = "AutoFit" THEN Rng(h[3].excl) ELSE {}
       IN /\ \A c \in ex : c \in Names(S'.fr[L.f]) /\ S'.fr[L.f].cols[c] = S.fr[L.src].cols[c]
          /\ \A c \in DOMAIN a.imp : \A j \in 1..NRows(S'.fr[L.f]) : V2(L.f, c)[j] # NAN
          /\ \A c \in DOMAIN a.oh.cats : c \notin Names(S'.fr[L.f])
  \* rows do not depend on each other
  /\ Is({"AutoTransform"}) /\ L.f = 7 =>
       \A c \in Names(S'.fr[7]) : V2(7, c) = [j \in 1..3 |-> V(5, c)[h[6].idx[j]]]
  ]_vars

(* C20 *)
JsonSame == [][
  /\ Is({"Json"}) => S'.cmp[L.c2] = S.cmp[L.c]
  /\ Len(h') = 8 /\ Len(h) = 7 =>
       /\ (4 \in DOMAIN S'.fr) <=> (5 \in DOMAIN S'.fr)
       /\ IF 4 \in DOMAIN S'.fr THEN Shown(S', 4) = Shown(S', 5) ELSE Shown(S', 2) = Shown(S', 3)
  ]_vars

(* C21 *)
PredictsRows == [][
  Is({"Predict"}) =>
    LET m == S.cmp[L.c].m
        F == S.fr[L.src]
    IN /\ KeepsAll
       /\ Rng(m.feats) = (ColsOf(F, "f") \cup ColsOf(F, "b")) \ {"t"}
       /\ Names(S'.fr[L.f]) = Names(F) \cup {L.col}
       /\ \A c \in Names(F) \ {L.col} : V2(L.f, c) = V(L.src, c)
       /\ \A j \in 1..NRows(F) :
            LET y == V2(L.f, L.col)[j] IN   \* (y - mean) / std is the weighted sum
            (y + m.sh) * m.sc = 256 * Sum([i \in 1..Len(m.feats) |-> (m.ws[i] * V(L.src, m.feats[i])[j]) \div 256])
  ]_vars

(* C24 *)
Starts == {<<WONE, -WONE \div 2, WONE \div 4>>, <<3 * WONE, 2 * WONE, -WONE>>}
Loss(w, X, Y) == Sum([j \in 1..Len(Y) |-> LET e == TrainErr(w, X, Y, j) \div 512 IN e * e])
NearSets(A, B) == (\A u \in A : \E v \in B : Near(u, v)) /\ (\A v \in B : \E u \in A : Near(u, v))
Trains == [][
  G("train") /\ Is({"LinTrain"}) /\ Len(h') = 3 =>
    LET F == S.fr[2]
        ft == SetToSeq(LinFeatures(F, "t"))
        X == TLCEval(TrainX(S, F, ft))
        Y == TLCEval(TrainY(V(2, "t"), -256, 512))
        n == Len(Y)
        p == TrainPar(L.par)
        Run(w, q) == TLCEval(Trained(w, X, Y, q))
        W(s) == SubSeq(s, 1, Len(ft))
    IN \A s \in Starts : LET R == Run(W(s), p) IN
         /\ R # {}
         \* all the weight is lost
         /\ p.dn = p.dd => R = {[i \in 1..Len(ft) |-> 0]}
         \* one batch: the order of the rows does not matter, nor does the size of the batch
         /\ p.b >= n => Cardinality(R) = 1 /\ R = Run(W(s), [p EXCEPT !.b = n])
         \* the rows of a frame are a set: the same rows in another order
         /\ p.e = 1 => NearSets(R, Trained(W(s), Reverse(X), Reverse(Y), p))
         \* small steps of one batch: the error does not grow
         /\ (p.b >= n /\ p.m = 0 /\ p.dn = 0) => \A w \in R : Loss(w, X, Y) <= Loss(W(s), X, Y) + n
         \* one epoch more is one epoch from where the others led
         /\ (p.e = 2 /\ p.m = 0) => R = UNION {Run(w, [p EXCEPT !.e = 1]) : w \in Run(W(s), [p EXCEPT !.e = 1])}
  ]_vars
=============================================================================
