-------------------------------- MODULE Stats --------------------------------
(* Statistics of a sequence of cells, exact over the rationals.  Missing     *)
(* values are left out; every operator yields a cell, Miss when undefined.   *)
EXTENDS Val

Known(v) == SelectSeq(v, LAMBDA c : ~IsMiss(c))
AllNum(v) == \A i \in 1..Len(v) : IsNum(v[i])
SortedNums(v) == LET p == StablePerm(Len(v), LAMBDA i, j : RLt(v[i], v[j]), FALSE) IN Pick(v, p)
Mean(v) == LET k == Known(v) IN IF k = <<>> THEN Miss ELSE RDiv(SumSeq(k), IntV(Len(k)))
MedianOf(s) == LET n == Len(s) IN
    IF n % 2 = 1 THEN s[(n + 1) \div 2]
    ELSE RDiv(RAdd(s[n \div 2], s[n \div 2 + 1]), IntV(2))
Median(v) == LET k == Known(v) IN IF k = <<>> THEN Miss ELSE MedianOf(SortedNums(k))
MinOf(v) == LET k == Known(v) IN IF k = <<>> THEN Miss ELSE SortedNums(k)[1]
MaxOf(v) == LET k == Known(v) IN IF k = <<>> THEN Miss ELSE SortedNums(k)[Len(k)]
CountOf(v, c) == Cardinality({i \in 1..Len(v) : v[i] = c})
\* most frequent value; of several, the (lower) middle one in increasing order
SortedCells(rk, v) == Pick(v, StablePerm(Len(v), LAMBDA i, j : CellLt(rk, v[i], v[j]), FALSE))
Mode(rk, v) ==
    LET k == Known(v)
        best == {c \in Range1(k) : \A x \in Range1(k) : CountOf(k, c) >= CountOf(k, x)}
        s == SortedCells(rk, Dedup(SelectSeq(k, LAMBDA c : c \in best)))
    IN IF k = <<>> THEN Miss ELSE s[(Len(s) + 1) \div 2]
SumOf(v) == LET k == Known(v) IN IF k = <<>> THEN Miss ELSE SumSeq(k)
SqDev(k, mu) == SumSeq([i \in 1..Len(k) |-> RMul(RSub(k[i], mu), RSub(k[i], mu))])
Variance(v) == LET k == Known(v) IN
    IF Len(k) < 2 THEN Miss ELSE RDiv(SqDev(k, Mean(k)), IntV(Len(k) - 1))
PopVariance(v) == LET k == Known(v) IN
    IF Len(k) < 1 THEN Miss ELSE RDiv(SqDev(k, Mean(k)), IntV(Len(k)))
UniqueCount(v) == Cardinality(Range1(Known(v)))
PropMissing(v) == Rat(Cardinality({i \in 1..Len(v) : IsMiss(v[i])}), Len(v))
PropZero(v) == Rat(Cardinality({i \in 1..Len(v) : IsZero(v[i])}), Len(v))
\* linear-interpolation quantile num/den of the sorted known values
Quantile(v, num, den) ==
    LET s == SortedNums(Known(v)) n == Len(s)
        pos == (n - 1) * num          \* position * den, from 0
        lo == pos \div den
        fr == pos % den
    IN IF n = 0 THEN Miss
       ELSE IF fr = 0 THEN s[lo + 1]
       ELSE RAdd(s[lo + 1], RMul(Rat(fr, den), RSub(s[lo + 2], s[lo + 1])))
MAD(v) == LET k == Known(v) IN IF k = <<>> THEN Miss
          ELSE LET m == Median(k) IN Median([i \in 1..Len(k) |-> RAbs(RSub(k[i], m))])

Number(c) == IsNum(c) \/ IsMiss(c)
AllNumber(v) == \A i \in 1..Len(v) : Number(v[i])
SumCount(v) == Len(Known(v))
Homog(k) == (\A i \in 1..Len(k) : IsNum(k[i])) \/ (\A i \in 1..Len(k) : IsStr(k[i]))
\* the cells a named statistic gives for a vector (squared standard deviations);
\* <<>> when it must raise
StatV(rk, s, v) ==
    LET num(c) == IF AllNumber(v) THEN c ELSE Miss
        q(i) == num(Quantile(v, i, 4))
    IN CASE s = "max" -> <<IF AllNumber(v) THEN MaxOf(v) ELSE Miss>>
         [] s = "min" -> <<IF AllNumber(v) THEN MinOf(v) ELSE Miss>>
         [] s = "mean" -> <<IF AllNumber(v) THEN Mean(v) ELSE Miss>>
         [] s = "median" -> <<IF AllNumber(v) THEN Median(v) ELSE Miss>>
         [] s = "sum" -> <<IF AllNumber(v) THEN SumSeq(Known(v)) ELSE Miss>>
         [] s = "count" -> <<IntV(Len(Known(v)))>>
         [] s = "mode" -> IF Known(v) = <<>> THEN <<>> ELSE <<Mode(rk, v)>>
         [] s = "uniquecount" -> <<IntV(UniqueCount(v))>>
         [] s = "proportionmissing" -> <<PropMissing(v)>>
         [] s = "proportionzero" -> <<PropZero(v)>>
         [] s = "variance" -> <<IF AllNumber(v) THEN Variance(v) ELSE Miss>>
         [] s = "popvariance" -> <<IF AllNumber(v) THEN PopVariance(v) ELSE Miss>>
         [] s = "medianabsolutedeviation" -> <<IF AllNumber(v) THEN MAD(v) ELSE Miss>>
         [] s = "quartiles" -> IF AllNumber(v)
                THEN <<Quantile(v, 1, 4), Quantile(v, 2, 4), Quantile(v, 3, 4)>> ELSE <<Miss, Miss, Miss>>

\* covariance of two vectors over the positions known in both
Both(u, v) == SelectSeq([i \in 1..Len(u) |-> i], LAMBDA i : ~IsMiss(u[i]) /\ ~IsMiss(v[i]))
CoDev(x, y) == LET mx == Mean(x) my == Mean(y)
               IN SumSeq([i \in 1..Len(x) |-> RMul(RSub(x[i], mx), RSub(y[i], my))])
Cov(u, v, ddof) ==
    LET b == Both(u, v) IN
    IF Len(b) - ddof <= 0 THEN Miss
    ELSE RDiv(CoDev(Pick(u, b), Pick(v, b)), IntV(Len(b) - ddof))
\* signed square of the correlation
Corr2(u, v) ==
    LET b == Both(u, v) x == Pick(u, b) y == Pick(v, b) IN
    IF b = <<>> THEN Miss
    ELSE LET d == RMul(CoDev(x, x), CoDev(y, y)) c == CoDev(x, y) IN
         IF IsZero(d) THEN Miss
         ELSE RDiv(IF c[2] < 0 THEN RNeg(RMul(c, c)) ELSE RMul(c, c), d)
=============================================================================
