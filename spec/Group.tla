------------------------------- MODULE Group -------------------------------
(***************************************************************************)
(* Partitions of the points of a table: groups by the values of features,  *)
(* counts of unique elements, training and testing sets.                   *)
(***************************************************************************)
EXTENDS Table, Stats

NoNames(n) == [k \in 1..n |-> ""]
\* the table of a statistic of every vector of an axis
StatTable(rk, ax, t0, s, names) ==
    LET t == Or(ax, t0)
        d == [i \in 1..Len(t.d) |-> StatV(rk, s, t.d[i])]
    IN Or(ax, Mk(t, d, Len(names), t.pn, names))
StatBad(rk, ax, t0, s) == LET t == Or(ax, t0) IN \E i \in 1..Len(t.d) : StatV(rk, s, t.d[i]) = <<>>
StatOp(rk, ax, t, s, names) ==
    IF StatBad(rk, ax, t, s) THEN Err(t) ELSE Outcome("yes", t, <<"t", StatTable(rk, ax, t, s, names)>>)
Similar(ax, t0, s) ==
    LET t == Or(ax, t0) n == Len(t.d)
        f(u, v) == CASE s = "cov" -> Cov(u, v, 1) [] s = "popcov" -> Cov(u, v, 0)
                     [] s = "corr" -> Corr2(u, v)
                     [] s = "dot" -> SumSeq([k \in 1..Len(u) |-> RMul(u[k], v[k])])
    IN Outcome("yes", t0, <<"t", Mk(t, [i \in 1..n |-> [j \in 1..n |-> f(t.d[i], t.d[j])]], n, t.pn, t.pn)>>)

\* --- linear algebra over the rationals -------------------------------------
Minor(d, i, j) == LET n == Len(d) k(x, y) == IF y < x THEN y ELSE y + 1
                  IN [a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> d[k(i, a)][k(j, b)]]]
RECURSIVE Det(_)
Det(d) == IF Len(d) = 1 THEN d[1][1]
          ELSE SumSeq([j \in 1..Len(d) |->
                 LET c == RMul(d[1][j], Det(Minor(d, 1, j))) IN IF j % 2 = 1 THEN c ELSE RNeg(c)])
Inv(d) == LET n == Len(d) dt == Det(d) IN
    IF n = 1 THEN <<<<RDiv(One, d[1][1])>>>>
    ELSE [i \in 1..n |-> [j \in 1..n |->
            LET c == RDiv(Det(Minor(d, j, i)), dt) IN IF (i + j) % 2 = 0 THEN c ELSE RNeg(c)]]
MVec(d, b) == [i \in 1..Len(d) |-> SumSeq([k \in 1..Len(b) |-> RMul(d[i][k], b[k])])]
InverseOp(t) ==
    IF Len(t.d) # t.m THEN Err(t)
    ELSE IF IsZero(Det(t.d)) THEN [Outcome("any", t, NoRet) EXCEPT !.ok = "free"]
    ELSE Outcome("yes", t, <<"t", Mk(t, Inv(t.d), t.m, NoNames(t.m), NoNames(t.m))>>)
\* u: the right hand side as a vector of cells
SolveOp(t, u) ==
    IF Len(t.d) # t.m \/ Len(u) # t.m THEN Err(t)
    ELSE IF IsZero(Det(t.d)) THEN [Outcome("any", t, NoRet) EXCEPT !.ok = "free"]
    ELSE Outcome("yes", t, <<"t", Mk(t, <<MVec(Inv(t.d), u)>>, t.m, <<"">>, t.fn)>>)
LeastOp(t, u) ==
    LET A == t.d n == Len(A) m == t.m
        G == [i \in 1..m |-> [j \in 1..m |-> SumSeq([k \in 1..n |-> RMul(A[k][i], A[k][j])])]]
        c == [i \in 1..m |-> SumSeq([k \in 1..n |-> RMul(A[k][i], u[k])])]
    IN IF Len(u) # n THEN Err(t)
       ELSE IF IsZero(Det(G)) THEN [Outcome("any", t, NoRet) EXCEPT !.ok = "free"]
       ELSE Outcome("yes", t, <<"t", Mk(t, <<MVec(Inv(G), c)>>, m, <<"">>, t.fn)>>)

GramOf(A, m) == LET n == Len(A) IN
    [i \in 1..m |-> [j \in 1..m |-> SumSeq([k \in 1..n |-> RMul(A[k][i], A[k][j])])]]
MMul(A, B, m) == [i \in 1..Len(A) |-> [j \in 1..m |-> SumSeq([k \in 1..Len(B) |-> RMul(A[i][k], B[k][j])])]]
\* Moore-Penrose inverse of a matrix with independent columns or rows
PInvOp(t) ==
    LET n == Len(t.d) m == t.m A == t.d At == Tr(t).d
        G == GramOf(A, m) H == GramOf(At, n)
        ok(X) == Outcome("yes", t, <<"t", Mk(t, X, n, NoNames(m), NoNames(n))>>)
    IN IF m <= n /\ ~IsZero(Det(G)) THEN ok(MMul(Inv(G), At, n))
       ELSE IF n <= m /\ ~IsZero(Det(H)) THEN ok(MMul(At, Inv(H), n))
       ELSE [Outcome("any", t, NoRet) EXCEPT !.ok = "free"]
\* what is left of each feature of t after the best linear fit (with a
\* constant) from the features of u; dependent columns add nothing
PickCols(A, cs) == [i \in 1..Len(A) |-> [j \in 1..Len(cs) |-> A[i][cs[j]]]]
RECURSIVE Basis(_, _, _)
Basis(A, m, cs) ==
    IF m = 0 THEN cs
    ELSE LET c == <<m>> \o cs
         IN Basis(A, m - 1, IF Det(GramOf(PickCols(A, c), Len(c))) # Zero THEN c ELSE cs)
ResidualsOp(t, u) ==
    IF Len(t.d) # Len(u.d) \/ Len(t.d) = 0 \/ t.m = 0 \/ u.m = 0 THEN Err(t)
    ELSE LET n == Len(u.d)
             B == [i \in 1..n |-> u.d[i] \o <<One>>]
             cs == Basis(B, u.m + 1, <<>>)
             A == PickCols(B, cs) k == Len(cs) Gi == Inv(GramOf(A, k))
             fit(y) == LET w == MVec(Gi, [i \in 1..k |-> SumSeq([r \in 1..n |-> RMul(A[r][i], y[r])])])
                       IN MVec(A, w)
             col(j) == [i \in 1..n |-> t.d[i][j]]
             fits == [j \in 1..t.m |-> fit(col(j))]
         IN Outcome("yes", t, <<"t", [t EXCEPT !.d =
                [i \in 1..n |-> [j \in 1..t.m |-> RSub(t.d[i][j], fits[j][i])]]]>>)

\* --- reports ----------------------------------------------------------------
NumName(k) == CASE k = 0 -> "0" [] k = 1 -> "1" [] k = 2 -> "2" [] OTHER -> "3"
\* columns of one name are numbered
Numbered(ns) == [i \in 1..Len(ns) |->
    IF CountOf(ns, ns[i]) = 1 THEN ns[i]
    ELSE ns[i] \o " (" \o NumName(CountOf(Pick(ns, Upto(i - 1)), ns[i])) \o ")"]
RepStat(rk, s, v) ==
    LET x == StatV(rk, IF s \in {"q1", "q2", "q3"} THEN "quartiles" ELSE s, v)
    IN IF x = <<>> THEN Miss
       ELSE CASE s = "q2" -> x[2] [] s = "q3" -> x[3] [] OTHER -> x[1]
\* one row for every feature: its index and the statistics asked for
FeatureReport(rk, t, stats, names, ty) ==
    LET c == Tr(t).d n == Len(c)
        fn == Numbered(<<"index">> \o names)
        row(i) == <<IntV(i - 1)>> \o [k \in 1..Len(stats) |-> RepStat(rk, stats[k], c[i])]
    IN Outcome(IF Len(t.d) = 0 THEN "open" ELSE "yes", t,
               <<"t", [d |-> [i \in 1..n |-> row(i)], m |-> Len(fn), pn |-> t.fn,
                       fn |-> fn, ty |-> ty]>>)
ShareOf(t, P(_)) == LET n == Len(t.d) IN
    Rat(Cardinality({x \in (1..n) \X (1..t.m) : P(t.d[x[1]][x[2]])}), n * t.m)
Report(t, ty) ==
    IF Len(t.d) = 0 \/ t.m = 0 THEN [Outcome("any", t, NoRet) EXCEPT !.ok = "free"]
    ELSE LET n == Len(t.d) IN
         Outcome("yes", t, <<"t", [d |-> <<<<IntV(n * t.m), IntV(n), IntV(t.m),
                                             ShareOf(t, IsZero), ShareOf(t, IsMiss)>>>>,
                m |-> 5, pn |-> <<"">>, ty |-> ty,
                fn |-> <<"Values", "Points", "Features", "proportionZero", "proportionMissing">>]>>)

GKey(t, by, i) ==
    LET nan == IF \E j \in 1..Len(t.d), k \in 1..Len(by) : t.d[j][by[k]] = <<"s", "NaN">>
               THEN <<"s", "numpy.nan">> ELSE <<"s", "NaN">>
    IN [k \in 1..Len(by) |-> IF IsMiss(t.d[i][by[k]]) THEN nan ELSE t.d[i][by[k]]]
GroupBy(rk, t, ids, mode, stat, sname) ==
    LET by == ResolveAll(t.fn, ids)
        ok == \A k \in 1..Len(by) : by[k] > 0
        n == Len(t.d)
        key == [i \in 1..n |-> GKey(t, by, i)]
        first == Where(n, LAMBDA i : \A j \in 1..(i - 1) : key[j] # key[i])
        keep == Others(t.m, by)
        rows(i) == Where(n, LAMBDA j : key[j] = key[i])
        sub(i) == Tr(Rows(Tr(Rows(t, rows(i))), keep))
        calc(i) == StatTable(rk, "f", sub(i), stat, sname)
        val(i) == CASE mode = "count" -> <<"i", Len(rows(i))>>
                    [] mode = "stat" -> <<"t", calc(i)>>
                    [] OTHER -> <<"t", sub(i)>>
    IN IF ~ok THEN Err(t)
       ELSE Outcome("yes", t, <<"g", [k \in 1..Len(first) |-> <<key[first[k]], val(first[k])>>]>>)

\* --- counts: {<<cell, count>>} of the selected rectangle ------------------------
Counts(t, ps, fs) ==
    LET p == IF ps[1] = "all" THEN Upto(Len(t.d)) ELSE ResolveAll(t.pn, ps[2])
        f == IF fs[1] = "all" THEN Upto(t.m) ELSE ResolveAll(t.fn, fs[2])
        bad == (\E i \in 1..Len(p) : p[i] = 0) \/ (\E i \in 1..Len(f) : f[i] = 0)
        all == IF bad THEN <<>> ELSE ConcatAll([i \in 1..Len(p) |-> [j \in 1..Len(f) |-> t.d[p[i]][f[j]]]])
    IN [bad |-> bad, set |-> {<<c, CountOf(all, c)>> : c \in Range1(all)}]
JCounts(t, ps, fs, exc, ret) ==
    LET c == Counts(t, ps, fs) IN
    IF exc # "" THEN IF c.bad THEN "ok" ELSE "unexpected-exception:" \o exc
    ELSE IF c.bad THEN "missing-exception"
    ELSE IF Len(ret[2]) # Cardinality(c.set) THEN "ret-number-of-values"
    ELSE IF Range1(ret[2]) # c.set THEN "ret-counts" ELSE "ok"

\* --- training and testing sets -------------------------------------------------
\* frac a rational cell; a: [lab |-> "none"|"ids"|"obj", ids, u, rand]
TTSizes(n, frac) == {s \in 0..n : LET d == RSub(IntV(s), RMul(frac, IntV(n))) IN RLe(RAbs(d), Rat(1, 2))}
TTParts(t, a, tr, te) ==
    LET ys == IF a.lab = "ids" THEN ResolveAll(t.fn, a.ids) ELSE <<>>
        over == IF a.lab = "obj" THEN Where(t.m, LAMBDA j : t.fn[j] # "" /\ Contains1(a.u.fn, t.fn[j])) ELSE ys
        keep == Others(t.m, over)
        X(idx) == Tr(Rows(Tr(Rows(t, idx)), keep))
        Y(idx) == IF a.lab = "ids" THEN Tr(Rows(Tr(Rows(t, idx)), ys))
                  ELSE [Rows(a.u, idx) EXCEPT !.pn = Pick(IF Unnamed(t.pn) THEN a.u.pn ELSE a.u.pn, idx)]
    IN IF a.lab = "none" THEN << <<"t", X(tr)>>, <<"t", X(te)>> >>
       ELSE << <<"t", X(tr)>>, <<"t", Y(tr)>>, <<"t", X(te)>>, <<"t", Y(te)>> >>
TTBad(t, a) ==
    \/ RLt(a.frac, Zero) \/ RLt(One, a.frac)
    \/ a.lab = "ids" /\ \E k \in 1..Len(a.ids) : Resolve(t.fn, a.ids[k]) = 0
    \/ a.lab = "obj" /\ (Len(a.u.d) # Len(t.d)
                         \/ (~Unnamed(t.pn) /\ ~Unnamed(a.u.pn) /\ t.pn # a.u.pn))
JSplit(t, a, exc, ret) ==
    LET n == Len(t.d) bad == TTBad(t, a) IN
    IF exc # "" THEN IF bad THEN "ok" ELSE "unexpected-exception:" \o exc
    ELSE IF bad THEN "missing-exception"
    ELSE LET got == ret[2] IN
         IF Len(got) # (IF a.lab = "none" THEN 2 ELSE 4) THEN "ret-number-of-sets"
         ELSE LET te == got[IF a.lab = "none" THEN 2 ELSE 3][2]
                  s == Len(te.d) IN
              IF s \notin TTSizes(n, a.frac) THEN "ret-test-size"
              ELSE IF ~a.rand
              THEN IF got = TTParts(t, a, Upto(n - s), [i \in 1..s |-> n - s + i]) THEN "ok"
                   ELSE "ret-sets"
              ELSE IF \E q \in [1..n -> 1..n] :
                        /\ \A i, j \in 1..n : i # j => q[i] # q[j]
                        /\ got = TTParts(t, a, [i \in 1..(n - s) |-> q[i]], [i \in 1..s |-> q[n - s + i]])
                   THEN "ok" ELSE "ret-sets-random"
=============================================================================
