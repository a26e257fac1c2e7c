------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* What the learners that come with nimble compute, exactly over the        *)
(* rationals, learners combined by a strategy for many classes, and the     *)
(* calls that fill or normalize data with a learner.  Where equal distances *)
(* leave a choice, the set of all answers is given.                         *)
(***************************************************************************)
EXTENDS Norm, Group, Score
L == INSTANCE Learn

\* --- many classes ----------------------------------------------------------
Bin(rk, x, y, args, row) ==
    L!Predict(rk, [kind |-> "Cls", x |-> x, y |-> [i \in 1..Len(y) |-> <<y[i]>>], args |-> args], <<>>, row)[1]
\* scores of the labels for one point: one learner for each label against all
\* others, or one for each pair of labels
ScoresAll(rk, x, y, labs, args, row) ==
    [k \in 1..Len(labs) |-> Bin(rk, x, [i \in 1..Len(y) |-> Bool(y[i] = labs[k])], args, row)]
PairsOf(n) == {<<i, j>> \in (1..n) \X (1..n) : i < j}
ScoresOne(rk, x, y, labs, args, row) ==
    LET ans == [q \in PairsOf(Len(labs)) |->
                  LET idx == SelectSeq(Upto(Len(y)), LAMBDA i : y[i] = labs[q[1]] \/ y[i] = labs[q[2]])
                  IN Bin(rk, Pick(x, idx), Pick(y, idx), args, row)]
    IN [k \in 1..Len(labs) |-> IntV(Cardinality({q \in PairsOf(Len(labs)) : ans[q] = labs[k]}))]
MultiScores(rk, strat, x, y, labs, args, row) ==
    IF strat = "all" THEN ScoresAll(rk, x, y, labs, args, row) ELSE ScoresOne(rk, x, y, labs, args, row)
TopOf(sc) == {k \in 1..Len(sc) : \A j \in 1..Len(sc) : RLe(sc[j], sc[k])}
\* txt: for every label its accepted texts
TextsOf(txt, c) == LET S == {i \in 1..Len(txt) : txt[i][1] = c} IN
                   IF S = {} THEN {} ELSE Range1(txt[CHOOSE i \in S : TRUE][2])
JMulti(rk, a, exc, ret) ==
    LET y == a.y labs == Dedup(y) n == Len(labs)
        sc == [i \in 1..Len(a.tx) |-> MultiScores(rk, a.strat, a.x, y, labs, a.args, a.tx[i])]
        r == ret[2]
        colOf(k) == {j \in 1..Len(r.fn) : r.fn[j] \in TextsOf(a.txt, labs[k])}
        labelOk(c, k) == c = labs[k] \/ (c[1] = "s" /\ c[2] \in TextsOf(a.txt, labs[k]))
    IN IF n < 2 THEN "ok"
       ELSE IF exc # "" THEN "unexpected-exception:" \o exc
       ELSE IF a.mode = "test" THEN
              (IF \E i \in 1..Len(sc) : Cardinality(TopOf(sc[i])) # 1 THEN "ok"
               ELSE LET wrong == Cardinality({i \in 1..Len(sc) : labs[CHOOSE k \in TopOf(sc[i]) : TRUE] # a.ty[i]})
                    IN IF ret = <<"c", Rat(wrong, Len(sc))>> THEN "ok" ELSE "multi-test")
       ELSE IF Len(r.d) # Len(a.tx) THEN "multi-size"
       ELSE IF a.mode = "none" THEN
              (IF r.m # 1 THEN "multi-size"
               ELSE IF \E i \in 1..Len(sc) : ~\E k \in TopOf(sc[i]) : r.d[i][1] = labs[k] THEN "multi-label" ELSE "ok")
       ELSE IF a.mode = "bestScore" THEN
              (IF r.m # 2 THEN "multi-size"
               ELSE IF \E i \in 1..Len(sc) : ~\E k \in TopOf(sc[i]) : labelOk(r.d[i][1], k) /\ r.d[i][2] = sc[i][k]
                    THEN "multi-best-score" ELSE "ok")
       ELSE IF r.m # n \/ \E k \in 1..n : Cardinality(colOf(k)) # 1 THEN "multi-columns"
       ELSE IF \E i \in 1..Len(sc) : \E k \in 1..n : r.d[i][CHOOSE j \in colOf(k) : TRUE] # sc[i][k] THEN "multi-scores"
       ELSE "ok"

\* --- nearest neighbours ------------------------------------------------------
Sq(u, v) == SumSeq([j \in 1..Len(u) |-> RMul(RSub(u[j], v[j]), RSub(u[j], v[j]))])
\* all sets of k nearest points
Nearest(x, k, row) ==
    LET n == Len(x) q == IF k < n THEN k ELSE n
        ds == TLCEval([i \in 1..n |-> Sq(x[i], row)])
        D == SortedNums(ds)[q]
        inner == {i \in 1..n : RLt(ds[i], D)}
        tie == {i \in 1..n : ds[i] = D}
    IN {inner \cup T : T \in {T \in SUBSET tie : Cardinality(T) = q - Cardinality(inner)}}
VotesOf(S, y, c) == Cardinality({i \in S : y[i] = c})
TopLabels(S, y) == {c \in {y[i] : i \in S} : \A i \in S : VotesOf(S, y, y[i]) <= VotesOf(S, y, c)}
\* of several labels with most votes the one of the nearest point
Voted(x, y, row, S) ==
    LET top == TopLabels(S, y)
        I == {i \in S : y[i] \in top}
        near == {i \in I : \A j \in I : RLe(Sq(x[i], row), Sq(x[j], row))}
    IN {y[i] : i \in near}
KnnLabels(x, y, k, row) == UNION {Voted(x, y, row, S) : S \in Nearest(x, k, row)}
JKnn(rk, a, exc, ret) ==
    LET labs == Pick(Dedup(a.y), StablePerm(Len(Dedup(a.y)), LAMBDA i, j : CellLt(rk, Dedup(a.y)[i], Dedup(a.y)[j]), FALSE))
        r == ret[2] IN
    IF a.k < 1 THEN "ok"
    ELSE IF exc # "" THEN "unexpected-exception:" \o exc
    ELSE IF Len(r.d) # Len(a.tx) THEN "knn-size"
    ELSE CASE a.mode = "none" ->
                IF \E i \in 1..Len(a.tx) : r.d[i] \notin {<<c>> : c \in KnnLabels(a.x, a.y, a.k, a.tx[i])} THEN "knn-label" ELSE "ok"
           [] a.mode = "allScores" ->
                IF \E i \in 1..Len(a.tx) : ~\E S \in Nearest(a.x, a.k, a.tx[i]) :
                     r.d[i] = [q \in 1..Len(labs) |-> IntV(VotesOf(S, a.y, labs[q]))] THEN "knn-votes" ELSE "ok"
           [] a.mode = "bestScore" ->
                IF \E i \in 1..Len(a.tx) : ~\E S \in Nearest(a.x, a.k, a.tx[i]) :
                     \E c \in TopLabels(S, a.y) : r.d[i] = <<c, IntV(VotesOf(S, a.y, c))>> THEN "knn-best" ELSE "ok"

\* --- linear models ------------------------------------------------------------
Gram(x, m, lam) == [i \in 1..m |-> [j \in 1..m |->
    RAdd(SumSeq([k \in 1..Len(x) |-> RMul(x[k][i], x[k][j])]), IF i = j THEN lam ELSE Zero)]]
Fit(x, m, lam, y) == MVec(Inv(Gram(x, m, lam)), [i \in 1..m |-> SumSeq([k \in 1..Len(x) |-> RMul(x[k][i], y[k])])])
WithOne(x) == [i \in 1..Len(x) |-> <<One>> \o x[i]]
JLinear(a, exc, ret) ==
    LET x == IF a.model = "linear" THEN WithOne(a.x) ELSE a.x
        tx == IF a.model = "linear" THEN WithOne(a.tx) ELSE a.tx
        m == Len(x[1]) q == Len(a.y[1])
        lam == IF a.model = "linear" THEN Zero ELSE a.lam
    IN IF IsZero(Det(Gram(x, m, lam))) THEN "ok"
       ELSE IF exc # "" THEN "unexpected-exception:" \o exc
       ELSE LET w == TLCEval([k \in 1..q |-> Fit(x, m, lam, [i \in 1..Len(x) |-> a.y[i][k]])])
                want == [i \in 1..Len(tx) |-> [k \in 1..q |-> SumSeq([j \in 1..m |-> RMul(tx[i][j], w[k][j])])]]
            IN IF ret[2].d = want THEN "ok" ELSE "linear-prediction"

\* --- filling with a learner -----------------------------------------------------
\* matched: sequence of sequences of booleans; the values the learner may fill at i, j
ColKnown(t, mt, j) == Pick(ColOf(t, j), SelectSeq(Upto(Len(t.d)), LAMBDA i : ~mt[i][j]))
SimpleFill(s, v) ==
    CASE s[1] = "mean" -> Mean(v) [] s[1] = "median" -> Median(v) [] s[1] = "constant" -> s[2]
      [] s[1] = "most_frequent" -> SortedNums(SelectSeq(v, LAMBDA c : \A i \in 1..Len(v) : CountOf(v, v[i]) <= CountOf(v, c)))[1]
RECURSIVE SetAsSeq(_)
SetAsSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SetAsSeq(S \ {e})
\* neighbours among the points known in the features of the point and in j
KnnFill(t, mt, md, k, i, j) ==
    LET keep == SelectSeq(Upto(t.m), LAMBDA c : ~mt[i][c])
        rows == SelectSeq(Upto(Len(t.d)), LAMBDA p : ~mt[p][j] /\ \A c \in 1..Len(keep) : ~mt[p][keep[c]])
        x == [p \in 1..Len(rows) |-> Pick(t.d[rows[p]], keep)]
        y == [p \in 1..Len(rows) |-> t.d[rows[p]][j]]
    IN IF keep = <<>> \/ Len(rows) < k THEN {}              \* not possible
       ELSE IF md = "regression"
       THEN {RDiv(SumSeq([p \in 1..Len(SetAsSeq(S)) |-> y[SetAsSeq(S)[p]]]), IntV(k)) : S \in Nearest(x, k, Pick(t.d[i], keep))}
       ELSE UNION {TopLabels(S, y) : S \in Nearest(x, k, Pick(t.d[i], keep))}
JFill(a, t, post, exc) ==
    LET mt == a.matched n == Len(t.d)
        bad == \E i \in 1..n : \E j \in 1..t.m : ~mt[i][j] /\ IsMiss(t.d[i][j])
        empty == \E j \in 1..t.m : \A i \in 1..n : mt[i][j]
        ins(i, j) == mt[i][j] /\ (a.ps = <<>> \/ Contains1(a.ps, i)) /\ (a.fs = <<>> \/ Contains1(a.fs, j))
        may(i, j) == IF a.learner[1] = "simple" THEN {SimpleFill(a.learner[2], ColKnown(t, mt, j))}
                     ELSE KnnFill(t, mt, a.learner[2], a.learner[3], i, j)
        imposs == a.learner[1] = "knn" /\ \E i \in 1..n : \E j \in 1..t.m : mt[i][j] /\ may(i, j) = {}
        \* a constant that the type of complete data cannot hold
        vain == a.learner[1] = "simple" /\ a.learner[2][1] = "constant" /\ \A i \in 1..n : \A j \in 1..t.m : ~mt[i][j]
    IN IF bad \/ (empty /\ a.learner[1] = "simple" /\ a.learner[2][1] # "constant")
       THEN (IF exc = "" THEN "missing-exception" ELSE IF post # t THEN "failed-call-changed-object" ELSE "ok")
       ELSE IF imposs \/ empty \/ (vain /\ exc # "") THEN (IF exc # "" /\ post # t THEN "failed-call-changed-object" ELSE "ok")
       ELSE IF exc # "" THEN "unexpected-exception:" \o exc
       ELSE IF [post EXCEPT !.d = <<>>] # [t EXCEPT !.d = <<>>] \/ Len(post.d) # n THEN "fill-shape-or-names"
       ELSE IF \E i \in 1..n : \E j \in 1..t.m : ~ins(i, j) /\ post.d[i][j] # t.d[i][j] THEN "fill-other-element"
       ELSE IF \E i \in 1..n : \E j \in 1..t.m : ins(i, j) /\ post.d[i][j] \notin may(i, j) THEN "fill-value"
       ELSE "ok"

\* --- normalizing with a learner ----------------------------------------------------
Scaled(s, v1, v) == NormVec([k |-> IF s = "standard" THEN "z" ELSE "range", s |-> Zero, e |-> One], v1, v)
NormalizedBy(s, t, u) ==
    LET cols == [j \in 1..u.m |-> Scaled(s, ColOf(t, j), ColOf(u, j))]
    IN [u EXCEPT !.d = [i \in 1..Len(u.d) |-> [j \in 1..u.m |-> cols[j][i]]]]
JNormalize(a, t, exc, ret) ==
    IF a.u # <<>> /\ a.u[1].m # t.m THEN (IF exc = "" THEN "missing-exception" ELSE "ok")
    ELSE IF exc # "" THEN "unexpected-exception:" \o exc
    ELSE LET want == IF a.u = <<>> THEN <<"t", NormalizedBy(a.s, t, t)>>
                     ELSE <<"tt", NormalizedBy(a.s, t, t), NormalizedBy(a.s, t, a.u[1])>>
         IN IF want = ret THEN "ok" ELSE "normalized-data"
=============================================================================
