------------------------------- MODULE ParMC ---------------------------------
(***************************************************************************)
(* Two callers at the same time, on frames that share their data.  Each runs *)
(* its branch, one or two operations: either on what both can see (reading   *)
(* frames and making new ones of them; only what a branch made itself is     *)
(* changed), or each on its own piece of a frame (own).                      *)
(*                                                                         *)
(* Operations are atomic here.  AnyOrder: whatever the order in which those  *)
(* of two branches are taken, frames show the same, and share the same       *)
(* cells.  So the order in which a recorded Par is judged does not matter.   *)
(* That the operations of the code are atomic, as far as these branches can  *)
(* tell, is what the race detector watches when these histories are replayed.*)
(***************************************************************************)
EXTENDS FramesMC

Ap(T, o) ==
  CASE o.op = "View"         -> OpView(T, o.f, o.src)
    [] o.op = "ShallowCopy"  -> OpShallowCopy(T, o.f, o.src)
    [] o.op = "IndexView"    -> OpIndexView(T, o.f, o.src, o.idx)
    [] o.op = "MaskView"     -> OpIndexView(T, o.f, o.src, MaskIdx(o.mask))
    [] o.op = "ReverseView"  -> OpIndexView(T, o.f, o.src, ReverseIdx(NRows(T.fr[o.src])))
    [] o.op = "ColumnView"   -> OpColumnView(T, o.f, o.src, Rng(o.cols))
    [] o.op = "Copy"         -> OpCopy(T, o.f, o.src)
    [] o.op = "DetachedView" -> OpDetachedView(T, o.f, o.src, Rng(o.cols))
    [] o.op = "Alloc"        -> OpAlloc(T, o.f, o.t, o.s, Rng(o.cols))
    [] o.op = "Drop"         -> OpDrop(T, o.f, Rng(o.cols))
    [] o.op = "Rename"       -> OpRename(T, o.f, o.a, o.b)
    [] o.op = "Overwrite"    -> OpOverwrite(T, o.f, o.t, o.s, o.col, o.vals)
    [] o.op = "SetMany"      -> Write(T, <<T.fr[o.f].cols[o.col].c[o.rows[1]]>>, o.vals)
    [] o.op = "SetMaxCPU"    -> OpSetCPU(T, o.f, o.cpu, 8)
    [] OTHER                 -> T
RunAll(T, ops) == TLCEval(FoldSeq(LAMBDA o, U : TLCEval(Ap(U, o)), T, ops))

(***************************** branches ************************************)
Derive(T, f, id) ==
  LET n == NRows(T.fr[f]) IN
  {[op |-> x, f |-> id, src |-> f] : x \in {"View", "ShallowCopy", "ReverseView", "Copy"}}
  \cup {[op |-> "IndexView", f |-> id, src |-> f, idx |-> i] : i \in {s \in {<<>>, <<n, 1, 1>>, <<2>>} : Rng(s) \subseteq 1..n}}
  \cup {[op |-> "MaskView", f |-> id, src |-> f, mask |-> [j \in 1..n |-> j # 2], via |-> "own"]}
  \cup {[op |-> x, f |-> id, src |-> f, cols |-> <<c>>] : x \in {"ColumnView", "DetachedView"}, c \in Names(T.fr[f])}
Looks(T, f) ==
  (IF "a" \in Names(T.fr[f]) /\ T.fr[f].cols["a"].t = "f" /\ NRows(T.fr[f]) > 0
   THEN {[op |-> "Dense", f |-> f, bt |-> 1, cols |-> <<"a">>], [op |-> "VecDense", f |-> f, col |-> "a", copy |-> FALSE]} ELSE {})
  \cup {[op |-> "SharedIndex", f |-> f, col |-> c] : c \in Names(T.fr[f])}
  \cup {[op |-> "LabelToInt", f |-> f, col |-> c] : c \in StrCols(T.fr[f])}
ParVal(t, s, k) == CASE t = "f" -> 64 * (700 + k) [] t = "i" -> 256 * (700 + k) [] t = "o" -> STR(20 + k) [] OTHER -> ONE
Mods(T, f, k, deep) ==
  LET F == T.fr[f]
      n == NRows(F)
  IN {[op |-> "Alloc", f |-> f, t |-> "f", s |-> FALSE, cols |-> <<"z">>], [op |-> "SetMaxCPU", f |-> f, cpu |-> 3]}
     \cup {[op |-> "Rename", f |-> f, a |-> c, b |-> "z"] : c \in Names(F)}
     \cup {[op |-> "Drop", f |-> f, cols |-> <<c>>] : c \in Names(F)}
     \cup {[op |-> "Overwrite", f |-> f, col |-> c, t |-> "i", s |-> FALSE, vals |-> [j \in 1..n |-> 256 * (j + k)], api |-> ""] : c \in Names(F) \cup {"y"}}
     \cup IF ~deep \/ n = 0 THEN {} ELSE
            {[op |-> "SetMany", f |-> f, col |-> c, rows |-> <<n>>, vals |-> <<ParVal(F.cols[c].t, F.cols[c].s, k)>>] : c \in Names(F)}
Few(ds) == IF Rich THEN ds ELSE {d \in ds : d.op \in {"View", "ReverseView", "Copy", "ColumnView"}}
\* branches of caller k that see the frames X
Shares(T, k, X) ==
  UNION {
    LET ds == Derive(T, f, nx + k) IN
    {<<d>> : d \in ds} \cup {<<r>> : r \in Looks(T, f)}
    \cup UNION {{<<d, m>> : m \in Mods(Ap(T, d), d.f, k, d.op = "Copy")} : d \in Few(ds)}
    : f \in X}
\* branches of caller k on the piece f
Owns(T, k, f) ==
  LET ds == {d \in Derive(T, f, nx + k) : d.op # "DetachedView"}
      ms == Mods(T, f, k, TRUE)
  IN {<<m>> : m \in ms} \cup {<<d>> : d \in ds}
     \cup UNION {{<<d, m>> : m \in Mods(Ap(T, d), d.f, k, TRUE)} : d \in Few(ds)}
     \cup {<<m, d>> : m \in {x \in ms : x.op = "SetMany"}, d \in ds}

ParOp(A, B, a, b) == [op |-> "Par", branches |-> <<[own |-> a, ops |-> A], [own |-> b, ops |-> B]>>]
Short(A, B) == Rich \/ (Len(A) + Len(B) < 4 /\ Len(A) >= Len(B))
Pars ==
  IF h[Len(h)].op = "SplitNView"
  THEN /\ h[Len(h)].b = 2
       /\ \E A \in Owns(S, 0, nx - 2) : \E B \in Owns(S, 1, nx - 1) :
            Short(A, B) /\ Do(ParOp(A, B, <<nx - 2>>, <<nx - 1>>), RunAll(S, A \o B), 2)
  ELSE \E A \in Shares(S, 0, Ids) : \E B \in Shares(S, 1, Ids) :
         Short(A, B) /\ Do(ParOp(A, B, <<>>, <<>>), RunAll(S, A \o B), 2)

HadPar == \E j \in 1..Len(h) : h[j].op = "Par"
\* a write shows who shares what
Probe == \E c \in Cols(1) : N(1) > 0 /\
  LET v == <<NewVal(S.fr[1].cols[c].t, S.fr[1].cols[c].s)>> IN
  Do([op |-> "SetMany", f |-> 1, col |-> c, rows |-> <<N(1)>>, vals |-> v], Write(S, <<S.fr[1].cols[c].c[N(1)]>>, v), 0)
ParNext == IF HadPar THEN h[Len(h)].op = "Par" /\ Probe ELSE Pars \/ (Len(h) = 1 /\ (Views \/ Splits \/ Detaches))
ParSpec == Init /\ [][ParNext]_vars

(***************************** properties **********************************)
Merges(A, B) == {M \in [1..(Len(A) + Len(B)) -> {1, 2}] : Cardinality({j \in DOMAIN M : M[j] = 1}) = Len(A)}
Woven(A, B, M) ==
  [j \in DOMAIN M |-> LET k == Cardinality({i \in 1..j : M[i] = M[j]}) IN IF M[j] = 1 THEN A[k] ELSE B[k]]
\* the same to everyone: values shown, settings, and which rows of which columns are one cell
Same2(T, U) ==
  /\ DOMAIN T.fr = DOMAIN U.fr
  /\ \A f \in DOMAIN T.fr :
       /\ Shown(T, f) = Shown(U, f)
       /\ T.fr[f].cpu = U.fr[f].cpu /\ T.fr[f].lin = U.fr[f].lin /\ T.fr[f].anc = U.fr[f].anc
  /\ \E m \in {[x \in UNION {CellsOf(T.fr[f]) : f \in DOMAIN T.fr} |->
                 CHOOSE y \in 1..Len(U.heap) : \E f \in DOMAIN T.fr : \E c \in Names(T.fr[f]) : \E j \in 1..NRows(T.fr[f]) :
                    T.fr[f].cols[c].c[j] = x /\ U.fr[f].cols[c].c[j] = y]} :
       /\ Cardinality({m[x] : x \in DOMAIN m}) = Cardinality(DOMAIN m)
       /\ \A f \in DOMAIN T.fr : \A c \in Names(T.fr[f]) : \A j \in 1..NRows(T.fr[f]) :
            U.fr[f].cols[c].c[j] = m[T.fr[f].cols[c].c[j]]
AnyOrder == [][
  Is({"Par"}) => LET A == L.branches[1].ops
                     B == L.branches[2].ops
                 IN \A M \in Merges(A, B) : Same2(RunAll(S, Woven(A, B, M)), S')
  ]_vars
\* no branch changes what the frames that both see show, and pieces change apart
SharedStay == [][
  Is({"Par"}) =>
    IF L.branches[1].own = <<>> THEN KeepsOthers({}) /\ Old \subseteq DOMAIN S'.fr
    ELSE \A g \in Old : g \in L.branches[1].own[1]..L.branches[2].own[1] \/ g \notin DOMAIN S'.fr \/
           \A c \in Names(S.fr[g]) : \A j \in 1..NRows(S.fr[g]) : Got(g, c)[j] # Had(g, c)[j] =>
             \E k \in {1, 2} : S.fr[g].rows[j] \in Rng(S.fr[L.branches[k].own[1]].rows)
  ]_vars
=============================================================================
