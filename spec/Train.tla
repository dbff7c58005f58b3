------------------------------- MODULE Train --------------------------------
(***************************************************************************)
(* Training of the linear regression: batch gradient descent.  Numbers are  *)
(* integers on the grid of 1/32768 (weights, gradients), of 1/2 (features)  *)
(* and of 1/256 (targets), so that gradients are exact and only updates     *)
(* are rounded.  The order of the rows in an epoch is not specified: the    *)
(* rows are dealt into batches of the given size (a smaller last one) in    *)
(* any way, anew for every epoch.                                           *)
(***************************************************************************)
EXTENDS Preproc

WONE == 32768
TrainTol == 40
RoundDiv(a, b) == (a + b \div 2) \div b

\* hyper-parameters and their default values.  The learning rate is 1/lrden,
\* the momentum is mom/4, the weight decay dn/dd
TrainPar(p) == [e |-> IF p.epochs = 0 THEN 1 ELSE p.epochs,
                b |-> IF p.batch = 0 THEN 64 ELSE p.batch,
                d |-> IF p.lrden = 0 THEN 10000 ELSE p.lrden,
                m |-> p.mom, dn |-> p.dn, dd |-> p.dd]

\* data: X, a sequence of rows of features; Y, standardised targets
TrainX(S, F, feats) == [j \in 1..NRows(F) |-> [i \in 1..Len(feats) |-> S.heap[F.cols[feats[i]].c[j]] \div 128]]
TrainY(v, sh, sc)   == [j \in 1..Len(v) |-> ScaleVal(v[j], sh, sc)]

\* twice the error of the prediction of row j
TrainErr(w, X, Y, j) == FoldSeq(LAMBDA i, acc : acc + w[i] * X[j][i], 0, Ident(Len(w))) - 256 * Y[j]
\* gradients over a batch: four times the sum of the errors times the features
TrainGrad(w, X, Y, B) ==
  LET err == TLCEval([j \in B |-> TrainErr(w, X, Y, j)])
  IN [i \in 1..Len(w) |-> RoundDiv(FoldSet(LAMBDA j, acc : acc + err[j] * X[j][i], 0, B), 4)]
\* one iteration: z = [w, g], the weights and the previous gradients
TrainStep(z, X, Y, B, p) ==
  LET g0 == TLCEval(TrainGrad(z.w, X, Y, B))
      g  == TLCEval([i \in 1..Len(z.w) |-> g0[i] + RoundDiv(z.g[i] * p.m, 4)])
  IN [w |-> TLCEval([i \in 1..Len(z.w) |-> RoundDiv((z.w[i] - RoundDiv(g[i], p.d)) * (p.dd - p.dn), p.dd)]), g |-> g]
TrainBatches(z, X, Y, Bs, p) == FoldSeq(LAMBDA B, y : TLCEval(TrainStep(y, X, Y, B, p)), z, Bs)

\* the ways to deal rows R into batches
RECURSIVE Deals(_, _)
Deals(R, b) == IF R = {} THEN {<<>>}
               ELSE UNION {{<<B>> \o q : q \in Deals(R \ B, b)} : B \in kSubset(Min2(b, Cardinality(R)), R)}
\* rows that contribute the same gradients: the way they are dealt makes no difference
Neg(s) == [i \in 1..Len(s) |-> -s[i]]
Alike(X, Y) == \A j \in 1..Len(Y) : \/ X[j] = X[1] /\ Y[j] = Y[1]
                                    \/ X[j] = Neg(X[1]) /\ Y[j] = -Y[1]
TrainDeals(X, Y, b) == LET n == Len(Y) IN
  IF Alike(X, Y) THEN {[k \in 1..NPieces(n, b) |-> ((k-1)*b + 1)..Min2(k*b, n)]} ELSE Deals(1..n, b)
RECURSIVE TrainEpochs(_, _, _, _, _)
TrainEpochs(Z, X, Y, p, e) ==
  IF e = 0 THEN Z
  ELSE TrainEpochs(TLCEval({TrainBatches(z, X, Y, D, p) : z \in Z, D \in TrainDeals(X, Y, p.b)}), X, Y, p, e - 1)
\* all the weights that training can lead to
Trained(w0, X, Y, p) == {z.w : z \in TrainEpochs({[w |-> w0, g |-> [i \in 1..Len(w0) |-> 0]]}, X, Y, p, p.e)}

Near(u, v) == \A i \in 1..Len(u) : Abs(u[i] - v[i]) <= TrainTol
=============================================================================
