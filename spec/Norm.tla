-------------------------------- MODULE Norm --------------------------------
(* Normalization of features, with the parameters taken from the calling     *)
(* object and optionally applied to a second object.                         *)
EXTENDS Table, Stats

RatSqrt(c) == LET a == ISqrt(c[2]) b == ISqrt(c[3]) IN Rat(a, b)   \* of a perfect square
Map1(v, F(_)) == [i \in 1..Len(v) |-> IF IsMiss(v[i]) THEN Miss ELSE F(v[i])]
\* percentile of a value of v1 itself: mean rank of the equal elements
Below(k, x) == Cardinality({i \in 1..Len(k) : RLt(k[i], x)})
Percent(k, x) == LET b == Below(k, x) c == CountOf(k, x)
                 IN RDiv(RAdd(IntV(b), Rat(c - 1, 2)), IntV(Len(k) - 1))
PercInterp(k, x) ==
    IF Contains1(k, x) THEN Percent(k, x)
    ELSE IF RLt(x, MinOf(k)) THEN Zero
    ELSE IF RLt(MaxOf(k), x) THEN One
    ELSE LET lo == MaxOf(SelectSeq(k, LAMBDA y : RLt(y, x)))
             hi == MinOf(SelectSeq(k, LAMBDA y : RLt(x, y)))
             pl == Percent(k, lo) ph == Percent(k, hi)
         IN RAdd(pl, RMul(RSub(ph, pl), RDiv(RSub(x, lo), RSub(hi, lo))))
\* the function fitted on v1, applied to v
NormVec(f, v1, v) ==
    LET k == Known(v1)
        mean == Mean(v1)
        var == PopVariance(v1)
        mn == MinOf(v1) sp == RSub(MaxOf(v1), mn)
        z(x) == IF IsZero(var) THEN RSub(x, mean) ELSE RDiv(RSub(x, mean), RatSqrt(var))
        rg(x) == LET u == RMul(RSub(f.e, f.s), RSub(x, mn))
                 IN RAdd(IF IsZero(sp) THEN u ELSE RDiv(u, sp), f.s)
    IN CASE f.k = "mean" -> Map1(v, LAMBDA x : RSub(x, mean))
         [] f.k = "z" -> Map1(v, z)
         [] f.k = "range" -> Map1(v, rg)
         [] f.k = "perc" -> Map1(v, LAMBDA x : PercInterp(k, x))
         [] f.k = "double" -> Map1(v, LAMBDA x : RMul(x, IntV(2)))
NormCols(f, t, u, idx) ==
    LET tt == Tr(t) uu == Tr(u) IN
    Tr([uu EXCEPT !.d = [j \in 1..Len(uu.d) |->
            IF Contains1(idx, j) THEN NormVec(f, tt.d[j], uu.d[j]) ELSE uu.d[j]]])
\* names agree where both members are named; a name of one is not elsewhere in the other
NoConflict(a, b) == \A i \in 1..Len(a) :
    \/ a[i] = b[i]
    \/ a[i] = "" /\ ~Contains1(a, b[i])
    \/ b[i] = "" /\ ~Contains1(b, a[i])
Normalize(t, f, lim, has, u) ==
    LET idx == IF lim[1] = "all" THEN Upto(t.m) ELSE ResolveAll(t.fn, lim[2])
        bad == (\E i \in 1..Len(idx) : idx[i] = 0)
               \/ (has /\ u.m # t.m)
               \/ (has /\ ~NoConflict(t.fn, u.fn))
    IN IF bad THEN Err(t)
       ELSE Outcome("yes", NormCols(f, t, t, idx), IF has THEN <<"t", NormCols(f, t, u, idx)>> ELSE NoRet)
=============================================================================
