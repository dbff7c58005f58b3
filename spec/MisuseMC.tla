------------------------------ MODULE MisuseMC ------------------------------
(***************************************************************************)
(* Bounded models of calls around the border of what is allowed, on two     *)
(* frames and on views of them (group "calls"), and of files and columns    *)
(* that do or do not fit together (group "fits").                           *)
(***************************************************************************)
EXTENDS Misuse, Json

CONSTANTS Group, Rich, Emit

VARIABLES S, h
vars == <<S, h>>

STR(k) == 700000000 + k
Col(nm, t, s, v) == [n |-> nm, t |-> t, s |-> s, v |-> v]
NewOp(id, cols) == [op |-> "New", f |-> id, n |-> Len(cols[1].v), cols |-> cols, cpu |-> 2, enc |-> "utf8", via |-> "set"]
MkNew(T, o) == Create(T, o.f, o.n, o.cols, o.cpu, o.enc)
K == Len(h)
Step(o, S2) == S' = TLCEval(S2) /\ h' = Append(h, o)
Final(o) == Step(o, [S EXCEPT !.w = {}]) /\ (Emit => PrintT(ToJson(h')))
SeqsOf(X, lo, hi) == UNION {[1..m -> X] : m \in lo..hi}
A == NewOp(1, <<Col("a", "f", FALSE, <<256, 512, -128>>), Col("i", "i", FALSE, <<0, -256, 256>>), Col("b", "b", FALSE, <<ONE, 0, ONE>>),
                Col("s", "o", TRUE, <<STR(1), NIL, STR(0)>>), Col("o", "o", FALSE, <<NIL, 700500001, NIL>>)>>)
B == NewOp(2, <<Col("a", "f", FALSE, <<0, 256>>), Col("i", "f", FALSE, <<256, 0>>), Col("z", "i", FALSE, <<256, 0>>)>>)
Bad(k) == [op |-> "Misuse", kind |-> k]
Cols == {"a", "i", "b", "s", "o", "z", ""}

(***************************** calls on frames *****************************)
Between ==
  \/ \E i \in {<<>>, <<3>>, <<2, 2>>, <<3, 1, 2, 2>>} : Step([op |-> "IndexView", f |-> 3, src |-> 1, idx |-> i], OpIndexView(S, 3, 1, i))
  \/ \E C \in {{"a", "b"}, {"s", "i"}, {"o"}} : Step([op |-> "ColumnView", f |-> 3, src |-> 1, cols |-> SetToSeq(C)], OpColumnView(S, 3, 1, C))
  \/ Step([op |-> "ShallowCopy", f |-> 3, src |-> 2], OpShallowCopy(S, 3, 2))
  \/ Step([op |-> "Copy", f |-> 3, src |-> 2], OpCopy(S, 3, 2))
F == 3
Nums == -2..5
Calls ==
  {Bad("sample") @@ [f |-> F, k |-> k, repl |-> r] : k \in 0..5, r \in BOOLEAN} \cup
  {Bad(q) @@ [f |-> F, k |-> k] : q \in {"split", "splitn"}, k \in Nums} \cup
  {Bad("ratio") @@ [f |-> F, num |-> u, den |-> d] : u \in -1..5, d \in {1, 4}} \cup
  {Bad(q) @@ [f |-> F, col |-> c] : q \in {"sort", "ints", "bools", "floats", "objects", "strings", "values", "labels"}, c \in Cols} \cup
  {Bad("top") @@ [f |-> F, col |-> c, k |-> k, asc |-> u, sorted |-> v] : c \in Cols, k \in Nums, u \in (IF Rich THEN BOOLEAN ELSE {TRUE}), v \in BOOLEAN} \cup
  {Bad("rename") @@ [f |-> F, col |-> c, b |-> "new"] : c \in Cols \ Names(S.fr[F])} \cup
  {Bad("dense") @@ [f |-> F, cols |-> c] : c \in (IF NRows(S.fr[F]) = 0 THEN {} ELSE SeqsOf(Cols, 1, 2))} \cup
  {Bad("iterate") @@ [f |-> F, cols |-> c] : c \in SeqsOf(Cols, 1, 2)} \cup
  {Bad("iterate") @@ [f |-> 1, g |-> g, cols |-> c] : g \in {2, F}, c \in SeqsOf({"a", "b", "i"}, 1, 2)} \cup
  {Bad("metric") @@ [f |-> 1, g |-> g, col |-> "a", gcol |-> "a", mse |-> m] : g \in {x \in {1, 2, F} : "a" \in Names(S.fr[x])}, m \in BOOLEAN} \cup
  {Bad("overlap") @@ [fs |-> s] : s \in SeqsOf(1..3, 0, 3)} \cup
  {Bad("rowconcat") @@ [fs |-> s] : s \in SeqsOf(1..3, 0, IF Rich THEN 3 ELSE 2)}

(*************************** things that do not fit ************************)
Heads == {<<"a">>, <<"a", "b">>, <<"b", "a">>, <<"b", "c">>}
FilesA == {[header |-> hd, lens |-> l] : hd \in Heads \cup {<<>>}, l \in {<<>>, <<1>>, <<2>>, <<2, 2>>, <<2, 1>>, <<1, 2>>}} \ [header : {<<>>}, lens : SeqsOf(1..2, 1, 2)]
Csv0(x) == Bad("csv") @@ x
Fits ==
  {Csv0([files |-> <<f>>, given |-> g, exclude |-> <<>>, pattern |-> p, cpu |-> 2]) : f \in FilesA, g \in {<<>>}, p \in BOOLEAN} \cup
  {Csv0([files |-> <<[header |-> <<>>, lens |-> l], [header |-> <<>>, lens |-> m]>>, given |-> <<"a", "b">>, exclude |-> <<>>, pattern |-> p, cpu |-> 2]) :
      l \in SeqsOf(1..2, 0, 2), m \in {<<>>, <<2>>, <<1>>}, p \in BOOLEAN} \cup
  {x \in {Csv0([files |-> <<[header |-> hd, lens |-> <<Len(hd)>>], f>>, given |-> <<>>, exclude |-> e, pattern |-> TRUE, cpu |-> 2]) :
      hd \in Heads, f \in {x \in FilesA : Len(x.lens) <= (IF Rich THEN 2 ELSE 1)}, e \in {<<>>, <<"a">>}} : x.exclude = <<>> \/ x.files[1].header # <<"a">>} \cup
  {Bad("sizes") @@ [sizes |-> s, types |-> t, raw |-> r] : s \in SeqsOf(0..2, 2, 2), t \in {u \o v : u \in {"f", "i", "b", "o", "s"}, v \in {"f", "i", "b", "o", "s"}}, r \in BOOLEAN} \cup
  {Bad("sizes") @@ [sizes |-> s, types |-> "fibo", raw |-> r] : s \in SeqsOf(1..2, 4, 4), r \in BOOLEAN}

Init == h = <<A, B>> /\ S = MkNew(MkNew(InitState, A), B)
Next ==
  CASE Group = "calls" /\ K = 2 -> Between
    [] Group = "calls" /\ K = 3 -> \E x \in Calls : Final(x)
    [] Group = "fits" /\ K = 2 -> \E x \in Fits : Final(x)
    [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
(* a call has to be refused exactly if nothing could be an answer           *)
Call == h[K]
Hit == Call.op = "Misuse"
N == NRows(S.fr[Call.f])
Answers(x) ==
  CASE x.kind = "sample" -> IF x.repl THEN {} ELSE {s \in [1..x.k -> 1..N] : IsInjSeq(s)}
    [] x.kind = "splitn" -> IF x.k < 0 THEN {} ELSE IF x.k = 0 THEN {"none"}
                            ELSE {s \in [1..x.k -> 0..N] : Total(s) = N}
    [] x.kind = "split"  -> {q \in 1..(N + 1) : (N = 0 /\ x.k > 0) \/ ((q-1) * x.k < N /\ N <= q * x.k)}
    [] x.kind = "ratio"  -> {k \in 0..N : k * x.den <= N * x.num /\ N * x.num < (k+1) * x.den /\ 0 <= x.num /\ x.num <= x.den}
                            \cup (IF N = 0 /\ x.num \in 0..x.den THEN {0} ELSE {})
    [] x.kind = "top"    -> {m \in 0..N : m = Min2(N, x.k) /\ TypeIs(S.fr[F], x.col, NUM)}
    [] x.kind = "overlap" -> IF Cardinality(UNION {Names(S.fr[x.fs[i]]) : i \in 1..Len(x.fs)}) =
                                Total([i \in 1..Len(x.fs) |-> Cardinality(Names(S.fr[x.fs[i]]))]) THEN {"yes"} ELSE {}
    [] x.kind = "csv" -> LET fs == FilesOf(x)
                             all == UNION {Kept(x, fs[i]) : i \in 1..Len(fs)}
                         IN IF \A i \in 1..Len(fs) : /\ HeaderOf(x, fs[i]) # <<>>
                                                     /\ \A c \in all : \E k \in 1..Len(HeaderOf(x, fs[i])) :
                                                          /\ HeaderOf(x, fs[i])[k] = c
                                                          /\ \A r \in 1..Len(fs[i].lens) : k <= fs[i].lens[r]
                            THEN {"yes"} ELSE {}
    [] OTHER -> {"?"}
Borders == Hit => LET x == Call IN
  /\ (x.kind \in {"sample", "splitn", "split", "top", "overlap"} \/ (x.kind = "ratio" /\ N > 0)) => (Answers(x) = {} <=> Invalid(S, x))
  /\ x.kind = "csv" => (Answers(x) = {} => Invalid(S, x))
(* at most one of the typed accessors of a column is allowed, and exactly   *)
(* one if it is there                                                       *)
Typed == (Hit /\ Call.kind = "values") =>
  LET ok == {k \in {"ints", "bools", "floats", "objects"} : ~Invalid(S, [Call EXCEPT !.kind = k])}
  IN Cardinality(ok) = IF Invalid(S, Call) THEN 0 ELSE 1
(* refused or not: nothing changes *)
Kept0(f) == [n |-> NRows(S.fr[f]), v |-> [c \in Names(S.fr[f]) |-> Vals(S, S.fr[f], c)]]
Harmless == [][h'[Len(h')].op = "Misuse" => \A f \in DOMAIN S.fr : Kept0(f) = Kept0(f)']_vars
=============================================================================
