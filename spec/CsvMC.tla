-------------------------------- MODULE CsvMC --------------------------------
(***************************************************************************)
(* Bounded models of CSV reading and writing: every small table and every   *)
(* combination of options; every way to spread rows over outputs; every     *)
(* position at which a file can end or an output can fail.                  *)
(***************************************************************************)
EXTENDS Csv, Json

CONSTANTS Group, Rich, Emit

VARIABLES S, h, files    \* files: written outputs, as [hdr, recs]; recs: sequences of texts
vars == <<S, h, files>>
G(x) == Group = x
K == Len(h)
Step(o, S2, fs) == /\ S' = TLCEval(S2) /\ h' = Append(h, o) /\ files' = fs
Final(o, S2, fs) == Step(o, S2, fs) /\ (Emit => PrintT(ToJson(h')))

(******************************** texts ************************************)
\* n: text, x: in hexadecimal, s: token as a string, b, i, f: as bool, int and float
Tx(n, x, s, b, i, f) == [n |-> n, x |-> x, s |-> 699999999 + s, b |-> b, i |-> i, f |-> f]
NV == NOVAL
Texts == <<
  Tx("true", "74727565", 1, ONE, NV, NV), Tx("F", "46", 2, 0, NV, NV), Tx("0", "30", 3, 0, 0, 0), Tx("1", "31", 4, ONE, ONE, ONE),
  Tx("-1", "2d31", 5, NV, MISSINT, -256), Tx("2", "32", 6, NV, 512, 512), Tx("1.5", "312e35", 7, NV, NV, 384), Tx("x", "78", 8, NV, NV, NV),
  Tx("", "", 9, NV, NV, NV), Tx("NA", "4e41", 10, NV, NV, NV), Tx("NaN", "4e614e", 11, NV, NV, NAN), Tx("x,y", "22782c7922", 12, NV, NV, NV),
  Tx("a", "61", 13, NV, NV, NV), Tx("b", "62", 14, NV, NV, NV), Tx("0.5", "302e35", 15, NV, NV, 128), Tx("-", "2d", 16, NV, NV, NV),
  Tx("q\"q", "2271222271" \o "22", 17, NV, NV, NV), Tx(" z", "207a", 18, NV, NV, NV), Tx("false", "66616c7365", 19, 0, NV, NV) >>
NT == Len(Texts)
Ix(n) == CHOOSE k \in 1..NT : Texts[k].n = n
Txt == [k \in 1..NT |-> [s |-> Texts[k].s, b |-> Texts[k].b, i |-> Texts[k].i, f |-> Texts[k].f, n |-> Texts[k].n]]
Hex1(k, alone) == IF alone /\ Texts[k].n = "" THEN "2222" ELSE Texts[k].x
HexRec(r) == FoldSeq(LAMBDA p, acc : acc \o (IF p = 1 THEN "" ELSE "2c") \o Hex1(r[p], Len(r) = 1), "", Ident(Len(r))) \o "0a"
HexFile(recs) == FoldSeq(LAMBDA r, acc : acc \o HexRec(r), "", recs)
SeqsOf(X, lo, hi) == UNION {[1..m -> X] : m \in lo..hi}

(***************************** reading (C13) *******************************)
Lex == {Ix("true"), Ix("0"), Ix("1"), Ix("-1"), Ix("1.5"), Ix("x"), Ix(""), Ix("NA")} \cup IF Rich THEN {Ix("F"), Ix("2"), Ix("NaN")} ELSE {}
Lex2 == IF Rich THEN Lex ELSE {Ix("true"), Ix("0"), Ix("-1"), Ix("1.5"), Ix("NA")}
Missings == {<<>>, <<"NA">>, <<"", "NA">>, <<"0">>, <<"true", "-1">>}
Opt(hd, ex, cpu, bf, bn, nf, mi) ==
  [header |-> hd, exclude |-> ex, cpu |-> cpu, boolf |-> bf, binf |-> bn, intf |-> nf, enc |-> "utf8",
   missing |-> [k \in 1..Len(mi) |-> Texts[Ix(mi[k])].s]]
ReadOp(o, mi, recs) == [op |-> "CsvRead", f |-> 1, api |-> "reader", raws |-> <<HexFile(recs)>>, comma |-> "", comment |-> "", lazy |-> FALSE,
                        trim |-> FALSE, chunk |-> 0, missingS |-> mi, opt |-> o, recs |-> recs]
Tables ==   \* header and rows
  IF G("infer1") THEN {[hdr |-> <<Ix("a")>>, rows |-> [j \in 1..Len(v) |-> <<v[j]>>]] : v \in SeqsOf(Lex, 0, IF Rich THEN 4 ELSE 3)}
  ELSE {[hdr |-> <<Ix("a"), Ix("b")>>, rows |-> r] : r \in SeqsOf(Lex2 \X Lex2, 1, 2)}
Opts == IF G("infer1")
        THEN {[o |-> Opt(hd, <<>>, 0, bf, bn, nf, mi), mi |-> mi] : hd \in {<<>>, <<"a">>}, bf, bn, nf \in BOOLEAN, mi \in Missings}
        ELSE {[o |-> Opt(hd, ex, cpu, FALSE, bn, FALSE, mi), mi |-> mi] : hd \in {<<>>, <<"b", "a">>}, ex \in {<<>>, <<"a">>, <<"b">>, <<"z">>},
                cpu \in {1, 2}, bn \in BOOLEAN, mi \in {<<>>, <<"NA">>}}
ReadNext == K = 0 /\ \E t \in Tables, x \in Opts :
  LET recs == (IF x.o.header = <<>> THEN <<t.hdr>> ELSE <<>>) \o t.rows
  IN Final(ReadOp(x.o, x.mi, recs), OpCsvRead(S, 1, x.o, recs, Txt, 8), <<>>)

\* two files: the type is that of all the values
ManyOp(o, mi, rs) == [op |-> "CsvReadMany", f |-> 1, api |-> "pattern", raws |-> [k \in 1..Len(rs) |-> HexFile(rs[k])], comma |-> "", comment |-> "",
                      lazy |-> FALSE, trim |-> FALSE, extradir |-> FALSE, missingS |-> mi, opt |-> o, files |-> rs]
ManyNext == K = 0 /\
  \/ \E v, w \in SeqsOf(Lex2, 0, 2), mi \in (IF Rich THEN Missings ELSE {<<>>, <<"NA">>, <<"0">>}), hd \in {<<>>, <<"a">>}, bf, bn, nf \in BOOLEAN :
       LET o == Opt(hd, <<>>, 2, bf, bn, nf, mi)
           file(x) == (IF hd = <<>> THEN <<<<Ix("a")>>>> ELSE <<>>) \o [j \in 1..Len(x) |-> <<x[j]>>]
           rs == <<file(v), file(w)>>
       IN (Rich \/ (bf => ~bn /\ ~nf)) /\
          Final(ManyOp(o, mi, rs), OpCsvReadMany(S, 1, o, rs, Txt, Ident(Len(v) + Len(w)), 8), <<>>)
  \* the second file has its columns in another order
  \/ \E v, w \in SeqsOf(Lex2 \X Lex2, 1, 1), ex \in {<<>>, <<"a">>, <<"b">>} :
       LET o == Opt(<<>>, ex, 2, FALSE, FALSE, FALSE, <<>>)
           rs == << <<<<Ix("a"), Ix("b")>>>> \o v, <<<<Ix("b"), Ix("a")>>>> \o w >>
       IN Final(ManyOp(o, <<>>, rs), OpCsvReadMany(S, 1, o, rs, Txt, Ident(Len(v) + Len(w)), 8), <<>>)
\* the same as one file with all the rows
Together == [][
  G("infern") => LET o == h'[1].opt
                     fs == h'[1].files
                     n == IF o.header = <<>> THEN 1 ELSE 0
                     same == n = 0 \/ fs[1][1] = fs[2][1]
                     swap(x) == [j \in 1..Len(x) |-> IF Len(x[j]) = 2 THEN <<x[j][2], x[j][1]>> ELSE x[j]]
                     one == TLCEval(fs[1] \o SubSeq(IF same THEN fs[2] ELSE swap(fs[2]), n + 1, Len(fs[2])))
                     T == OpCsvRead(S, 1, o, one, Txt, 8)
                 IN Shown(S', 1) = Shown(T, 1)
  ]_vars
Infers == [][
  (G("infer1") \/ G("infer2")) =>
    LET o == h'[1].opt
        mi == h'[1].missingS
        F == S'.fr[1]
    IN \A c \in DOMAIN F.cols : LET col == F.cols[c] IN
         /\ c \notin Rng(o.exclude)
         /\ o.boolf => col.t # "b"
         /\ o.intf => col.t # "i"
         /\ \A j \in 1..NRows(F) : LET v == S'.heap[col.c[j]] IN
              /\ col.t = "b" => v \in {0, ONE}
              /\ col.t = "i" => v % 256 = 0
              /\ col.t = "f" => v < 700000000
              /\ col.t = "o" => col.s /\ (v = NIL \/ v >= 700000000)
  ]_vars
\* each cell shows its text; only markers are missing; the type is the first that has room for every cell
Cells == [][
  (G("infer1") \/ G("infer2")) =>
    LET o == h'[1].opt
        mi == Rng(h'[1].missingS)
        F == S'.fr[1]
        Shows(v, t, x) == CASE t = "b" -> v = x.b
                            [] x.n \in mi -> v \in {NIL, NAN, MISSINT} \/ (t = "f" /\ (o.boolf \/ o.binf) /\ x.b # NV /\ v = x.b)
                            [] t = "i" -> v = x.i
                            [] t = "f" -> v = x.f \/ v = x.b
                            [] OTHER -> v = x.s
        d == IF o.header = <<>> THEN Tail(h'[1].recs) ELSE h'[1].recs
        hd == IF o.header = <<>> THEN [p \in 1..Len(h'[1].recs[1]) |-> Txt[h'[1].recs[1][p]].n] ELSE o.header
        Fits(t, x) == CASE t = "b" -> x.b # NV [] t = "i" -> x.i # NV \/ x.n \in mi [] t = "f" -> x.f # NV \/ x.n \in mi [] OTHER -> TRUE
    IN /\ NRows(F) = Len(d)
       /\ DOMAIN F.cols = Rng(hd) \ Rng(o.exclude)
       /\ \A p \in 1..Len(hd) : hd[p] \in DOMAIN F.cols =>
            LET col == F.cols[hd[p]]
                tx == [j \in 1..Len(d) |-> Txt[d[j][p]]]
                all(t) == \A j \in 1..Len(d) : Fits(t, tx[j])
            IN /\ \A j \in 1..Len(d) : Shows(S'.heap[col.c[j]], col.t, tx[j])
               /\ (col.t = "b") = (all("b") /\ ~o.boolf /\ ~(o.binf /\ \A j \in 1..Len(d) : tx[j].n \in {"0", "1"}))
               /\ (col.t = "i") => ~all("b")
               /\ (col.t = "o") => ~all("f") /\ ~all("b")
               /\ (~all("b") /\ all("i") /\ ~o.intf) => col.t = "i"
  ]_vars

(************************* writing and back (C12) **************************)
STR(k) == Texts[k].s
Col(nm, t, s, v) == [n |-> nm, t |-> t, s |-> s, v |-> v]
Ints == {<<0, 256, 512>>, <<MISSINT, 512, 512>>, <<256, 0, 0>>}
Flts == {<<128, NAN, 256>>, <<384, 128, 128>>, <<NAN, NAN, NAN>>}
Bls  == {<<0, 256, 0>>}
Strs == {<<STR(Ix("x")), NIL, STR(Ix("a"))>>, <<NIL, NIL, NIL>>, <<STR(Ix("x,y")), STR(Ix("")), STR(Ix("x,y"))>>,
         <<STR(Ix("NA")), STR(Ix("q\"q")), NIL>>, <<STR(Ix("1")), STR(Ix("2")), STR(Ix(" z"))>>, <<STR(Ix("0")), STR(Ix("0")), STR(Ix("0"))>>}
Cols1 == {Col("a", "i", FALSE, v) : v \in Ints} \cup {Col("a", "f", FALSE, v) : v \in Flts} \cup {Col("a", "b", FALSE, v) : v \in Bls}
         \cup {Col("a", "o", TRUE, v) : v \in Strs}
Cols2 == {<<>>} \cup {<<Col("b", "i", FALSE, <<0, 512, MISSINT>>)>>, <<Col("b", "o", TRUE, <<NIL, STR(Ix("a")), STR(Ix("x"))>>)>>,
                      <<Col("b", "f", FALSE, <<NAN, 384, 384>>)>>, <<Col("o", "o", FALSE, <<700500001, 700500002, 700500003>>)>>}
NewOp(cols) == [op |-> "New", f |-> 1, n |-> 3, cols |-> cols, cpu |-> 2, enc |-> "utf8", via |-> "set"]
\* text of a value
TextOf(t, v, marker) ==
  CASE v = NIL -> Ix(marker)
    [] t = "o" -> CHOOSE k \in 1..NT : Texts[k].s = v
    [] t = "b" -> IF v = ONE THEN Ix("true") ELSE Ix("false")
    [] t = "i" -> CHOOSE k \in 1..NT : Texts[k].i = v /\ Texts[k].n # "F"
    [] OTHER   -> CHOOSE k \in 1..NT : Texts[k].f = v
Recs(F, hd, rows, marker) == [i \in 1..Len(rows) |-> [p \in 1..Len(hd) |->
   TextOf(F.cols[hd[p]].t, S.heap[F.cols[hd[p]].c[rows[i]]], marker)]]
\* ways to spread rows over n outputs
Spreads(rows, n) == LET m == Len(rows) IN
  {[k \in 1..n |-> SubSeq(rows, IF k = 1 THEN 1 ELSE cut[k-1] + 1, IF k = n THEN m ELSE cut[k])] :
     cut \in {c \in [1..(n-1) -> 0..m] : \A k \in 1..(n-1) : k = 1 \/ c[k-1] <= c[k]}}
Apis == {"To1CSV", "ToCSVs", "ToCSVFiles", "ToCSVDir"}
WriteNext ==
  CASE K = 1 -> \E i \in {<<1, 2, 3>>, <<3, 1>>, <<2, 2, 1, 3>>, <<>>} : LET o == [op |-> "IndexView", f |-> 2, src |-> 1, idx |-> i] IN
                  Step(o, OpIndexView(S, 2, 1, i), <<>>)
    [] K = 2 -> \E api \in Apis, order, crlf \in BOOLEAN, mk \in {"", "NA", "-"}, n \in 1..3, min \in {1, 2} :
         LET F == S.fr[2]
             hd == SetToSeq(CsvCols(F))
             nn == IF api = "To1CSV" THEN 1 ELSE n
             o == [op |-> "CsvWrite", f |-> 2, api |-> api, comma |-> "", crlf |-> crlf, order |-> order, markerS |-> mk,
                   nout |-> n, minrows |-> min, kind |-> ""]
         IN /\ (Rich \/ crlf = FALSE) /\ (api # "ToCSVDir" => min = 1) /\ (api \in {"To1CSV", "ToCSVDir"} => n = 1) /\ CsvCols(F) # {}
            /\ \E perm \in {Ident(NRows(F))} \cup IF order THEN {} ELSE {ReverseIdx(NRows(F))} :
               \E sp \in Spreads(perm, nn) :
                 Step(o, [S EXCEPT !.w = {}], [k \in 1..nn |-> [hdr |-> hd, rows |-> sp[k], recs |-> Recs(F, hd, sp[k], mk)]])
    [] K = 3 ->
         LET mk == <<h[3].markerS>>
             o == Opt(<<>>, <<>>, 2, FALSE, FALSE, FALSE, mk)
             hr(k) == <<[p \in 1..Len(files[k].hdr) |-> Ix(files[k].hdr[p])]>> \o files[k].recs
             back(n) == [op |-> "CsvBack", f |-> 3, many |-> n > 1, missingS |-> mk, comma |-> "", comment |-> "", lazy |-> FALSE, trim |-> FALSE,
                         chunk |-> 0, extradir |-> FALSE, opt |-> o]
             n == Len(files)
         IN IF n = 1 THEN Final(back(1), OpCsvRead(S, 3, o, hr(1), Txt, 8), files)
               ELSE Final(back(n), OpCsvReadMany(S, 3, o, [k \in 1..n |-> hr(k)], Txt, Ident(NRows(S.fr[2])), 8), files)
    [] OTHER -> FALSE
IsMissing(v) == v \in {NIL, NAN, MISSINT}
Row(T, f, j) == [c \in CsvCols(T.fr[f]) |-> T.heap[T.fr[f].cols[c].c[j]]]
\* a value read back from the text of v
Back(t, ty, v, mk) ==
  IF v = NIL THEN {NIL, NAN, MISSINT}
  ELSE IF t # "o" THEN {v}
  ELSE LET x == CHOOSE y \in Rng(Txt) : y.s = v IN IF x.n = mk THEN {NIL, NAN, MISSINT} ELSE {x.s, x.b, x.i, x.f} \ {NV}
RoundTrip == [][
  (G("write") /\ K = 3 /\ Len(h') = 4) =>
    LET F == S.fr[2]
        B == S'.fr[3]
        rows == FoldSeq(LAMBDA k, acc : acc \o files[k].rows, <<>>, Ident(Len(files)))
    IN /\ NRows(B) = NRows(F)
       /\ Names(B) = CsvCols(F)
       /\ IsPerm(rows, NRows(F)) /\ (h[3].order => rows = Ident(NRows(F)))
       /\ \A c \in Names(B) : \A j \in 1..NRows(B) :
            S'.heap[B.cols[c].c[j]] \in Back(F.cols[c].t, B.cols[c].t, S.heap[F.cols[c].c[rows[j]]], h[3].markerS)
       /\ \A c \in Names(B) : F.cols[c].t = "b" /\ NRows(F) > 0 => B.cols[c].t = "b"
       /\ \A c \in Names(B) : (\E j \in 1..NRows(F) : S.heap[F.cols[c].c[j]] \in {STR(Ix("x")), STR(Ix("x,y")), STR(Ix("q\"q"))}) =>
              B.cols[c].t = "o" /\ B.cols[c].s
  ]_vars

(****************************** failures (C22) *****************************)
(* an output takes whole lines into a buffer of B bytes, which goes to a     *)
(* device that takes L bytes; what follows the failure is never written      *)
Big == [op |-> "New", f |-> 1, n |-> 700, cols |-> <<Col("a", "i", FALSE, [j \in 1..700 |-> 256 * (j + 100)]),
          Col("b", "b", FALSE, [j \in 1..700 |-> 0])>>, cpu |-> 4, enc |-> "utf8", via |-> "set"]
Small3 == NewOp(<<Col("a", "i", FALSE, <<256, 512, 768>>), Col("b", "f", FALSE, <<384, NAN, 0>>)>>)
None0 == [op |-> "New", f |-> 1, n |-> 0, cols |-> <<Col("a", "i", FALSE, <<>>)>>, cpu |-> 1, enc |-> "utf8", via |-> "set"]
WFaultNext == K = 1 /\
  \E api \in {"To1CSV", "ToCSVs"}, n \in 1..3, which \in 0..2, order \in BOOLEAN, e \in (IF Rich THEN 0..12 ELSE {0, 1, 12}) :
  \E lim \in (IF h[1].n = 700 THEN {0, 1, 4, 2000, 4095, 4096, 4097, 5000, 6990, 6999, 7000, 7003, 7004, 7005, 20000} ELSE 0..(IF h[1].n = 0 THEN 4 ELSE 30)) :
    /\ which < n /\ (api = "To1CSV" => n = 1)
    /\ Final([op |-> "CsvFault", f |-> 1, api |-> api, comma |-> "", crlf |-> FALSE, order |-> order, markerS |-> "", nout |-> n, minrows |-> 1,
              kind |-> "", short |-> FALSE, error |-> e, which |-> which, limit |-> lim], [S EXCEPT !.w = {}], <<>>)
\* bytes of a file with quotes, and two bad ones
Bytes == <<"61", "2c", "62", "0a", "31", "2c", "22", "78", "2c", "79", "22", "0a", "32", "2c", "7a", "0a">>
Cat(bs) == FoldSeq(LAMBDA x, acc : acc \o x, "", bs)
Insert(p, x) == SubSeq(Bytes, 1, p) \o <<x>> \o SubSeq(Bytes, p + 1, Len(Bytes))
RdFault(raws, api, kind, e, early, chunk, hd) ==
  [op |-> "CsvFault", api |-> api, kind |-> kind, error |-> e, early |-> early, chunk |-> chunk, raws |-> raws, comma |-> "", comment |-> "",
   lazy |-> FALSE, trim |-> FALSE, missingS |-> <<>>, extradir |-> FALSE, opt |-> Opt(hd, <<>>, 2, FALSE, FALSE, FALSE, <<>>)]
RFaultNext == K = 0 /\
  \/ \E p \in 0..Len(Bytes), e \in 0..11, early \in BOOLEAN, chunk \in {0, 1, 5} :
       Final(RdFault(<<Cat(SubSeq(Bytes, 1, p))>>, "reader", "reader", e, early, chunk, <<>>), S, <<>>)
  \/ \E p \in 0..Len(Bytes), x \in {"22", "2c", "2222", "0a", "22220a", "782278"}, api \in {"reader", "file"}, hd \in {<<>>, <<"a", "b">>} :
       Final(RdFault(<<Cat(Insert(p, x))>>, api, "", 0, FALSE, 0, hd), S, <<>>)
  \/ \E p \in 4..Len(Bytes), x \in {"22", "2c"}, n \in 1..4, which \in 1..4 : which <= n /\   \* one bad file among several
       Final(RdFault([k \in 1..n |-> IF k = which THEN Cat(Insert(p, x)) ELSE Cat(Bytes)], "pattern", "", 0, FALSE, 0, <<>>), S, <<>>)
  \/ \E p \in 0..Len(Bytes) : Final(RdFault(<<Cat(SubSeq(Bytes, 1, p))>>, "file", "", 0, FALSE, 0, <<>>), S, <<>>)
  \/ \E k \in {"missing", "isdir"} : Final(RdFault(<<Cat(Bytes)>>, "file", k, 0, FALSE, 0, <<>>), S, <<>>)
  \/ \E k \in {"missing", "badglob", "nomatch"}, n \in 1..3 : Final(RdFault([i \in 1..n |-> Cat(Bytes)], "pattern", k, 0, FALSE, 0, <<>>), S, <<>>)

MkNew(T, o) == Create(T, o.f, o.n, o.cols, o.cpu, o.enc)
Init == /\ files = <<>>
        /\ CASE G("write") -> \E a \in Cols1, b \in Cols2 : h = <<NewOp(<<a>> \o b)>> /\ S = MkNew(InitState, NewOp(<<a>> \o b))
             [] G("wfault") -> \E o \in {Big, Small3, None0} : h = <<o>> /\ S = MkNew(InitState, o)
             [] OTHER -> h = <<>> /\ S = InitState
Next == CASE G("write") -> WriteNext [] G("wfault") -> WFaultNext [] G("rfault") -> RFaultNext [] G("infern") -> ManyNext [] OTHER -> ReadNext
Spec == Init /\ [][Next]_vars
Kept == \A f \in {1, 2} : (G("write") /\ f \in DOMAIN S.fr) => \A c \in Names(S.fr[f]) : Len(S.fr[f].cols[c].c) = NRows(S.fr[f])
=============================================================================
