-------------------------------- MODULE Score --------------------------------
(* Performance functions of known and predicted values, exact over the        *)
(* rationals: roots are returned squared.  Both objects are tables.           *)
EXTENDS Table, Stats

NRows(t) == Len(t.d)
HasMissing(t) == \E i \in 1..Len(t.d) : \E j \in 1..t.m : IsMiss(t.d[i][j])
NumericTab(t) == \A i \in 1..Len(t.d) : \A j \in 1..t.m : IsNum(t.d[i][j])
ColOf(t, j) == [i \in 1..Len(t.d) |-> t.d[i][j]]
Cells1(cs) == <<"l", cs>>

\* whether a function decorated with flags accepts the two objects
Accepts(fl, k, p) ==
    /\ fl.empty \/ ~(NRows(k) = 0 \/ k.m = 0 \/ NRows(p) = 0 \/ p.m = 0)
    /\ ~fl.pts \/ NRows(k) = NRows(p)
    /\ ~fl.fts \/ k.m = p.m
    /\ ~fl.one \/ p.m <= 1
    /\ fl.miss \/ (~HasMissing(k) /\ ~HasMissing(p))
Strict == [empty |-> FALSE, pts |-> TRUE, fts |-> TRUE, one |-> TRUE, miss |-> FALSE]
Wide == [Strict EXCEPT !.one = FALSE]

Errs(u, v) == [i \in 1..Len(u) |-> RSub(v[i], u[i])]
MeanSq(u, v) == LET e == Errs(u, v) IN RDiv(SumSeq([i \in 1..Len(e) |-> RMul(e[i], e[i])]), IntV(Len(e)))
MeanAbs(u, v) == LET e == Errs(u, v) IN RDiv(SumSeq([i \in 1..Len(e) |-> RAbs(e[i])]), IntV(Len(e)))
Wrong(u, v) == Rat(Cardinality({i \in 1..Len(u) : u[i] # v[i]}), Len(u))
IsSquare(c) == ISqrt(c[2]) >= 0 /\ ISqrt(c[3]) >= 0
Root(c) == Rat(ISqrt(c[2]), ISqrt(c[3]))
Dot1(u, v) == SumSeq([i \in 1..Len(u) |-> RMul(u[i], v[i])])
SignSq(c) == IF c[2] < 0 THEN RNeg(RMul(c, c)) ELSE RMul(c, c)

\* counts of a binary classification
Cnt(u, v, a, b) == Cardinality({i \in 1..Len(u) : u[i] = a /\ v[i] = b})
TPos(u, v) == Cnt(u, v, One, One)
TNeg(u, v) == Cnt(u, v, Zero, Zero)
FPos(u, v) == Cnt(u, v, Zero, One)
FNeg(u, v) == Cnt(u, v, One, Zero)
Ratio(a, b) == IF b = 0 THEN <<>> ELSE <<Rat(a, b)>>          \* undefined without cases
Binary(v) == \A i \in 1..Len(v) : v[i] \in {Zero, One}
BinaryScores == {"tp", "tn", "fp", "fn", "recall", "precision", "specificity", "balanced", "f1"}
NumericScores == {"rmse", "mfrmse", "mae", "vfr", "rsq", "cos"}

\* <<>> when the value is not determined.  Those computed with the arithmetic of
\* objects refuse names that contradict each other.
ScoreOf(f, u, v) ==
    LET rec == Ratio(TPos(u, v), TPos(u, v) + FNeg(u, v))
        pre == Ratio(TPos(u, v), TPos(u, v) + FPos(u, v))
        spe == Ratio(TNeg(u, v), TNeg(u, v) + FPos(u, v))
    IN CASE f = "rmse" -> <<MeanSq(u, v)>>
         [] f = "mae" -> <<MeanAbs(u, v)>>
         [] f = "wrong" -> <<Wrong(u, v)>>
         [] f = "right" -> <<RSub(One, Wrong(u, v))>>
         [] f = "vfr" -> IF IsZero(PopVariance(u)) THEN <<>> ELSE <<RDiv(MeanSq(u, v), PopVariance(u))>>
         [] f = "rsq" -> IF IsZero(PopVariance(u)) THEN <<>> ELSE <<RSub(One, RDiv(MeanSq(u, v), PopVariance(u)))>>
         [] f = "cos" -> IF IsZero(Dot1(u, u)) \/ IsZero(Dot1(v, v)) THEN <<>>
                         ELSE <<RDiv(SignSq(Dot1(u, v)), RMul(Dot1(u, u), Dot1(v, v)))>>
         [] f = "tp" -> <<IntV(TPos(u, v))>>
         [] f = "tn" -> <<IntV(TNeg(u, v))>>
         [] f = "fp" -> <<IntV(FPos(u, v))>>
         [] f = "fn" -> <<IntV(FNeg(u, v))>>
         [] f = "recall" -> rec
         [] f = "precision" -> pre
         [] f = "specificity" -> spe
         [] f = "balanced" -> IF rec = <<>> \/ spe = <<>> THEN <<>>
                              ELSE <<RDiv(RAdd(rec[1], spe[1]), IntV(2))>>
         [] f = "f1" -> IF rec = <<>> \/ pre = <<>> \/ TPos(u, v) = 0 THEN <<>>
                        ELSE <<Rat(2 * TPos(u, v), 2 * TPos(u, v) + FPos(u, v) + FNeg(u, v))>>

Score(f, k, p) ==
    LET ok == Accepts(IF f = "mfrmse" THEN Wide ELSE Strict, k, p) IN
    IF ~ok THEN Outcome("no", k, NoRet)
    ELSE IF f = "mfrmse" THEN
        (IF ~NumericTab(k) \/ ~NumericTab(p) THEN Outcome("no", k, NoRet)
         ELSE LET ms == [j \in 1..k.m |-> MeanSq(ColOf(k, j), ColOf(p, j))] IN
              IF \E j \in 1..k.m : ~IsSquare(ms[j]) THEN Outcome("free", k, NoRet)
              ELSE Outcome("yes", k, Cells1(<<RDiv(SumSeq([j \in 1..k.m |-> Root(ms[j])]), IntV(k.m))>>)))
    ELSE LET u == ColOf(k, 1) v == ColOf(p, 1) IN
         IF f \in NumericScores /\ (~NumericTab(k) \/ ~NumericTab(p)) THEN Outcome("no", k, NoRet)
         ELSE IF f \in BinaryScores /\ (~Binary(u) \/ ~Binary(v)) THEN Outcome("no", k, NoRet)
         ELSE LET r == ScoreOf(f, u, v) IN
              IF r = <<>> THEN Outcome("free", k, NoRet)
              ELSE Outcome(IF f \in {"vfr", "rsq", "cos"} /\ (k.pn # p.pn \/ k.fn # p.fn) THEN "any" ELSE "yes", k, Cells1(r))

\* a function of one's own behind the decorator: it answers with the numbers
\* of points and features it was given
Decorated(fl, k, p) ==
    IF Accepts(fl, k, p) THEN Outcome("yes", k, Cells1(<<IntV(NRows(k)), IntV(k.m), IntV(NRows(p)), IntV(p.m)>>))
    ELSE Outcome("no", k, NoRet)

\* confusion matrix: keys are the cells of the classes in order, txt their labels
Confusion(rk, k, p, lab, txt, frac) ==
    LET u == ColOf(k, 1) v == ColOf(p, 1)
        own == Pick(Dedup(u), StablePerm(Len(Dedup(u)), LAMBDA i, j : CellLt(rk, Dedup(u)[i], Dedup(u)[j]), FALSE))
        dict == LET ks == [i \in 1..Len(lab[2]) |-> lab[2][i][1]]
                IN Pick(ks, StablePerm(Len(ks), LAMBDA i, j : CellLt(rk, ks[i], ks[j]), FALSE))
        keys == CASE lab[1] = "none" -> own
                  [] lab[1] = "dict" -> dict
                  [] lab[1] = "list" -> [i \in 1..Len(lab[2]) |-> IntV(i - 1)]
        text(i) == CASE lab[1] = "none" -> txt[CHOOSE j \in 1..Len(txt) : txt[j][1] = keys[i]][2]
                     [] lab[1] = "dict" -> lab[2][CHOOSE j \in 1..Len(lab[2]) : lab[2][j][1] = keys[i]][2]
                     [] lab[1] = "list" -> lab[2][i]
        n == Len(keys)
        names(pre) == [i \in 1..n |-> pre \o text(i)]
        num == [i \in 1..n |-> [j \in 1..n |-> Cardinality({x \in 1..Len(u) : v[x] = keys[i] /\ u[x] = keys[j]})]]
        cellOf(c) == IF frac THEN Rat(c, Len(u)) ELSE IntV(c)
    IN IF k.m # 1 \/ p.m # 1 \/ Len(u) # Len(v) THEN Outcome("no", k, NoRet)
       ELSE IF ~Homog(u) \/ HasMissing(k) \/ HasMissing(p) \/ Len(u) = 0 THEN Outcome("free", k, NoRet)
       ELSE IF lab[1] = "dict" /\ ~Homog(keys) THEN Outcome("free", k, NoRet)
       ELSE IF \E x \in 1..Len(u) : ~Contains1(keys, u[x]) \/ ~Contains1(keys, v[x]) THEN Outcome("no", k, NoRet)
       ELSE IF ~NoDup(names("")) THEN Outcome("free", k, NoRet)
       ELSE Outcome("yes", k, <<"t", [d |-> [i \in 1..n |-> [j \in 1..n |-> cellOf(num[i][j])]], m |-> n,
                                      pn |-> names("predicted_"), fn |-> names("known_"), ty |-> k.ty]>>)

\* confidence interval around the mean of the errors: <<mean, squared half width>>
\* (of the squared interval for rmse); t2 is the squared quantile of the t distribution
TQuantile2(n, c) == IF n = 3 THEN RDiv(RMul(IntV(2), RMul(c, c)), RSub(One, RMul(c, c))) ELSE One
Interval(f, k, p, c) ==
    LET u == ColOf(k, 1) v == ColOf(p, 1) n == Len(u) e == Errs(u, v)
        w == CASE f = "rmse" -> [i \in 1..n |-> RMul(e[i], e[i])] [] f = "mae" -> [i \in 1..n |-> RAbs(e[i])]
               [] OTHER -> [i \in 1..n |-> Bool(u[i] # v[i])]
        var == IF f = "wrong" THEN PopVariance(w) ELSE Variance(w)
        half2 == RDiv(RMul(TQuantile2(n, c), var), IntV(n))
    IN IF f = "rmse" /\ RLe(RMul(Mean(w), Mean(w)), half2) THEN Outcome("free", k, NoRet)
       ELSE Outcome("yes", k, Cells1(<<Mean(w), half2>>))

\* which direction of a function is better: its declared one, or that of trials
Detect(declared, kind) ==
    CASE declared # "" -> <<declared>> [] kind = "right" -> <<"max">> [] kind = "wrong" -> <<"min">> [] OTHER -> <<>>
=============================================================================
