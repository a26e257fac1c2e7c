------------------------------- MODULE Learn -------------------------------
(***************************************************************************)
(* Training, applying, testing, retraining and extending learners.  The     *)
(* machine below holds trained learners; what a learner computes from its   *)
(* training data, arguments and a point is given by Predict and Score, the  *)
(* exact counterparts of the probe learners of the driver, so that anything *)
(* nimble does to data, labels, arguments, names or order shows.            *)
(*                                                                          *)
(* A trained learner is a record [kind, x, y, yn, args, sq, m]: the training *)
(* points and their labels in order, the names of the labels, the arguments *)
(* in use, whether the training data was square, its number of features.    *)
(* Arguments are sequences of <<name, integer>>.                            *)
(***************************************************************************)
EXTENDS Table

\* --- the probe learners ------------------------------------------------------
Kinds == {"Reg", "Need", "Cls", "Trans"}
TrainParams(k) == CASE k = "Reg" -> <<"a", "b">> [] k = "Need" -> <<"a", "b">> [] k = "Cls" -> <<"a">> [] k = "Trans" -> <<"a">>
ApplyParams(k) == CASE k = "Reg" -> <<"c">> [] k = "Need" -> <<>> [] k = "Cls" -> <<"c">> [] k = "Trans" -> <<"b">>
Default(k, p) == CASE p = "a" -> 1 [] p = "b" -> 0 [] p = "c" -> IF k = "Cls" THEN 0 ELSE 1
NeedsArg(k, p) == k = "Need" /\ p = "a"
Incremental(k) == k \in {"Reg", "Cls"}
Labeled(k) == k \in {"Reg", "Need", "Cls"}

ArgNames(as) == [i \in 1..Len(as) |-> as[i][1]]
HasArg(as, p) == \E i \in 1..Len(as) : as[i][1] = p
ArgOf(as, p) == as[CHOOSE i \in 1..Len(as) : as[i][1] = p][2]
ArgVal(k, as, p) == IF HasArg(as, p) THEN ArgOf(as, p) ELSE Default(k, p)
\* two mappings, which may not disagree
Agree(as, bs) == \A i \in 1..Len(bs) : HasArg(as, bs[i][1]) => ArgOf(as, bs[i][1]) = bs[i][2]
Merged(as, bs) == as \o SelectSeq(bs, LAMBDA b : ~HasArg(as, b[1]))
\* later values replace earlier ones
Updated(as, bs) == SelectSeq(as, LAMBDA a : ~HasArg(bs, a[1])) \o bs
SameArgs(as, bs) == Range1(as) = Range1(bs)

RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN Zero ELSE RAdd(SumTo(f, n - 1), f(n))
IKey(row) == SumTo(LAMBDA j : RMul(IntV(j), row[j]), Len(row))

\* prediction of label k of a "Reg" or "Need" learner
RegValue(tl, as, row, k) ==
    LET a == IntV(ArgVal(tl.kind, tl.args, "a")) b == IntV(ArgVal(tl.kind, tl.args, "b"))
        c == IF tl.kind = "Need" THEN One ELSE IntV(ArgVal(tl.kind, as, "c"))
        s == SumTo(LAMBDA i : RMul(tl.y[i][k], IKey(tl.x[i])), Len(tl.x))
    IN RAdd(RAdd(RMul(a, s), RMul(b, IntV(Len(tl.x)))), RMul(c, IKey(row)))

\* a "Cls" learner: the label of the nearest training point
RECURSIVE Increasing(_, _)
Increasing(rk, S) == IF S = {} THEN <<>>
                     ELSE LET m == CHOOSE c \in S : \A d \in S \ {c} : CellLt(rk, c, d)
                          IN <<m>> \o Increasing(rk, S \ {m})
Labels(rk, tl) == Increasing(rk, {tl.y[i][1] : i \in 1..Len(tl.y)})
Dist(tl, as, row, lab) ==
    LET z == RAdd(IKey(row), IntV(ArgVal("Cls", as, "c")))
        D == {RAbs(RSub(z, IKey(tl.x[i]))) : i \in {j \in 1..Len(tl.x) : tl.y[j][1] = lab}}
    IN RMul(IntV(ArgVal("Cls", tl.args, "a")), CHOOSE d \in D : \A e \in D : RLe(d, e))
Scores(rk, tl, as, row) == LET ls == Labels(rk, tl) IN [i \in 1..Len(ls) |-> RNeg(Dist(tl, as, row, ls[i]))]
Best(sc) == CHOOSE i \in 1..Len(sc) : /\ \A j \in 1..Len(sc) : RLe(sc[j], sc[i])
                                      /\ \A j \in 1..(i - 1) : sc[j] # sc[i]
Predict(rk, tl, as, row) ==
    CASE tl.kind \in {"Reg", "Need"} -> [k \in 1..Len(tl.y[1]) |-> RegValue(tl, as, row, k)]
      [] tl.kind = "Cls" -> <<Labels(rk, tl)[Best(Scores(rk, tl, as, row))]>>
      [] tl.kind = "Trans" -> [j \in 1..Len(row) |->
             RAdd(RAdd(RMul(IntV(ArgVal("Trans", tl.args, "a")), row[j]), SumTo(LAMBDA i : tl.x[i][j], Len(tl.x))),
                  IntV(ArgVal("Trans", as, "b")))]

\* --- the calls -------------------------------------------------------------------
\* outcomes of calls that yield a learner or a table: ok "yes" "no" "any"
Refused == [ok |-> "no"]
Open == [ok |-> "any"]

\* splitting the labels off: y is <<"obj", table>>, <<"id", id>>, <<"none">>
Split(t, y) ==
    CASE y[1] = "none" -> [ok |-> "yes", x |-> t.d, xpn |-> t.pn, m |-> t.m, y |-> <<>>, yn |-> <<>>]
      [] y[1] = "obj" -> IF Len(y[2].d) # Len(t.d) THEN Refused
                         ELSE [ok |-> "yes", x |-> t.d, xpn |-> t.pn, m |-> t.m, y |-> y[2].d, yn |-> y[2].fn]
      [] y[1] = "id" -> LET j == Resolve(t.fn, y[2]) IN
                        IF j = 0 THEN Refused
                        ELSE LET keep == Others(t.m, <<j>>) IN
                             [ok |-> "yes", x |-> [i \in 1..Len(t.d) |-> Pick(t.d[i], keep)], xpn |-> t.pn, m |-> t.m - 1,
                              y |-> [i \in 1..Len(t.d) |-> <<t.d[i][j]>>], yn |-> <<t.fn[j]>>]

ArgsFit(k, as) ==
    /\ \A i \in 1..Len(as) : Contains1(TrainParams(k) \o ApplyParams(k), as[i][1])
    /\ \A i \in 1..Len(TrainParams(k)) : NeedsArg(k, TrainParams(k)[i]) => HasArg(as, TrainParams(k)[i])

\* training on the table t
Trained(k, t, y, args, kw) ==
    LET s == Split(t, y) IN
    IF s.ok = "no" \/ ~Agree(args, kw) \/ ~ArgsFit(k, Merged(args, kw)) THEN Refused
    ELSE IF s.m = 0 \/ Len(s.x) = 0 \/ Labeled(k) # (y[1] # "none") \/ (k = "Cls" /\ Len(s.yn) # 1) THEN Open
    ELSE [ok |-> "yes", tl |-> [kind |-> k, x |-> s.x, y |-> s.y, yn |-> s.yn, args |-> Merged(args, kw),
                                sq |-> Len(s.x) = s.m, m |-> s.m]]

\* what a call with new arguments uses when applying
ApplyArgs(tl, new) == [i \in 1..Len(ApplyParams(tl.kind)) |->
    LET p == ApplyParams(tl.kind)[i] IN
    <<p, IF HasArg(new, p) THEN ArgOf(new, p) ELSE ArgVal(tl.kind, tl.args, p)>>]
NewFit(tl, new) == \A i \in 1..Len(new) : Contains1(ApplyParams(tl.kind), new[i][1])

TwoD(tl) == Labeled(tl.kind) /\ Len(tl.yn) > 1
\* result: rows, names of points, names of features as <<"names", s>>,
\* <<"labels", cells>> or <<"free">>
Applied(rk, tl, x, pn, args, kw, mode) ==
    IF ~Agree(args, kw) THEN Refused
    ELSE LET new == Merged(args, kw) as == ApplyArgs(tl, new) IN
    IF ~NewFit(tl, new) \/ mode \notin {"none", "bestScore", "allScores"} THEN Refused
    ELSE IF Len(x) > 0 /\ Len(x[1]) # tl.m THEN (IF tl.sq /\ Len(x) = Len(x[1]) THEN Open ELSE Refused)
    ELSE IF mode # "none" /\ (TwoD(tl) \/ tl.kind # "Cls") THEN (IF tl.kind = "Trans" THEN Open ELSE Refused)
    ELSE LET pr == [i \in 1..Len(x) |-> Predict(rk, tl, as, x[i])] IN
         CASE mode = "none" -> [ok |-> "yes", d |-> pr, pn |-> pn, fn |-> IF Labeled(tl.kind) THEN <<"names", tl.yn>> ELSE <<"free">>]
           [] mode = "allScores" -> [ok |-> "yes", d |-> [i \in 1..Len(x) |-> Scores(rk, tl, as, x[i])], pn |-> pn,
                                     fn |-> <<"labels", Labels(rk, tl)>>]
           [] mode = "bestScore" ->
                LET sc == [i \in 1..Len(x) |-> Scores(rk, tl, as, x[i])] IN
                [ok |-> "yes", d |-> [i \in 1..Len(x) |-> <<pr[i][1], sc[i][Best(sc[i])]>>], pn |-> pn,
                 fn |-> IF tl.yn[1] = "" THEN <<"free">> ELSE <<"names", <<tl.yn[1], "bestScore">>>>]

\* --- performance -------------------------------------------------------------------
Mean(f(_), n) == RDiv(SumTo(f, n), IntV(n))
Diff(known, pred) == IF known[1] = "n" /\ pred[1] = "n" THEN RSub(known, pred) ELSE Zero
\* of one column of known labels and predictions; "rmse" gives the square
Perf(p, known, pred) ==
    LET n == Len(known) IN
    CASE p = "mae" -> Mean(LAMBDA i : RAbs(Diff(known[i], pred[i])), n)
      [] p = "rmse" -> Mean(LAMBDA i : RMul(Diff(known[i], pred[i]), Diff(known[i], pred[i])), n)
      [] p = "wrong" -> Mean(LAMBDA i : Bool(known[i] # pred[i]), n)
      [] p = "right" -> Mean(LAMBDA i : Bool(known[i] = pred[i]), n)
      [] p = "total" -> SumTo(LAMBDA i : Diff(pred[i], IntV(0)), n)
      \* sums the scores given to the known labels: predictions with all scores
      [] p = "scored" -> SumTo(LAMBDA i : pred[i], n)
NumericOnly(p) == p \in {"mae", "rmse", "total"}
Column(d, j) == [i \in 1..Len(d) |-> d[i][j]]

Tested(rk, tl, t, y, args, kw, p) ==
    LET s == IF y[1] = "none" THEN Open ELSE Split(t, y) IN
    IF s.ok # "yes" THEN s
    ELSE LET r == Applied(rk, tl, s.x, s.xpn, args, kw, IF p = "scored" THEN "allScores" ELSE "none") IN
         IF r.ok # "yes" THEN r
         ELSE IF tl.kind = "Trans" \/ Len(s.x) = 0 THEN Open
         ELSE IF p = "scored" /\ Len(s.yn) # 1 THEN Open
         ELSE IF TwoD(tl) \/ Len(s.yn) # 1 THEN Refused
         ELSE IF p = "scored" THEN
                LET ls == Labels(rk, tl) IN
                IF \E i \in 1..Len(s.y) : ~Contains1(ls, s.y[i][1]) THEN Open
                ELSE [ok |-> "yes", v |-> Perf(p, Column(s.y, 1), [i \in 1..Len(s.y) |-> r.d[i][IndexOf(ls, s.y[i][1])]])]
         ELSE IF NumericOnly(p) /\ \E i \in 1..Len(s.y) : ~IsNum(s.y[i][1]) \/ ~IsNum(r.d[i][1]) THEN Open
         ELSE [ok |-> "yes", v |-> Perf(p, Column(s.y, 1), Column(r.d, 1))]

\* --- changing a trained learner ---------------------------------------------------
Retrained(tl, t, y, args, kw) ==
    IF ~Agree(args, kw) THEN Refused
    ELSE LET new == Updated(tl.args, Merged(args, kw)) r == Trained(tl.kind, t, y, new, <<>>) IN r

Extended(tl, t, y, args) ==
    LET s == Split(t, y) new == Updated(tl.args, args) IN
    IF s.ok = "no" \/ ~Incremental(tl.kind) \/ ~ArgsFit(tl.kind, new) THEN Refused
    ELSE IF (\E i \in 1..Len(args) : ~Contains1(TrainParams(tl.kind), args[i][1])) THEN Open
    ELSE IF s.m # tl.m \/ Len(s.x) = 0 \/ Len(s.yn) # Len(tl.yn) \/ y[1] = "none" THEN Open
    ELSE [ok |-> "yes", tl |-> [tl EXCEPT !.x = @ \o s.x, !.y = @ \o s.y, !.args = new]]
=============================================================================
