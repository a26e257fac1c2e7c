-------------------------------- MODULE Elem --------------------------------
(* Element-wise and vector-wise operations: what a user function applied to  *)
(* a table must yield, and where.                                            *)
EXTENDS Table, Stats

NoneV == <<"none">>      \* the function returned None
RaiseV == <<"raise">>    \* the function of one element raised
RaiseVec == <<RaiseV>>   \* the function of a vector raised

\* user functions of one element (value, point index, feature index; 0-based)
EF(f, c, i, j) ==
    CASE f.k = "id"   -> c
      [] f.k = "add"  -> IF IsMiss(c) THEN Miss ELSE IF IsNum(c) THEN RAdd(c, f.c) ELSE RaiseV
      [] f.k = "mul"  -> IF IsMiss(c) THEN Miss ELSE IF IsNum(c) THEN RMul(c, f.c) ELSE RaiseV
      [] f.k = "const" -> f.c
      [] f.k = "swap" -> IF c = f.a THEN f.b ELSE c
      [] f.k = "noneif" -> IF c = f.a THEN NoneV ELSE f.b
      [] f.k = "dict" -> IF \E q \in 1..Len(f.m) : f.m[q][1] = c
                         THEN f.m[CHOOSE q \in 1..Len(f.m) : f.m[q][1] = c][2] ELSE c
      [] f.k = "pos"  -> IntV(100 + 10 * i + j)
      [] f.k = "gt"   -> Bool(Cmp(f.rk, ">", c, f.c))
      [] f.k = "eq"   -> Bool(Cmp(f.rk, "==", c, f.c))
EFx(f, c, i, j, pz, skip) ==
    IF pz /\ IsZero(c) THEN Zero
    ELSE LET r == EF(f, c, i, j) IN IF r = NoneV THEN (IF skip THEN c ELSE Miss) ELSE r

IdxOrAll(names, n, lim) == IF lim.k = "none" THEN Upto(n) ELSE ResolveAll(names, lim.ids)

TransformElements(t, f, plim, flim, pz, skip) ==
    LET P == IdxOrAll(t.pn, NPts(t), plim)
        F == IdxOrAll(t.fn, t.m, flim)
        d == [i \in 1..NPts(t) |-> [j \in 1..t.m |->
                IF Contains1(P, i) /\ Contains1(F, j) THEN EFx(f, t.d[i][j], i - 1, j - 1, pz, skip)
                ELSE t.d[i][j]]]
    IN IF ~AllOk(P) \/ ~AllOk(F) THEN Err(t)
       ELSE IF \E i \in 1..NPts(t), j \in 1..t.m : d[i][j] = RaiseV THEN Outcome("abort", t, NoRet)
       ELSE Outcome("yes", [t EXCEPT !.d = d], NoRet)

Anon(n) == [i \in 1..n |-> ""]
CalcElements(t, f, plim, flim, pz, skip, ty) ==
    LET P == IdxOrAll(t.pn, NPts(t), plim)
        F == IdxOrAll(t.fn, t.m, flim)
        d == [i \in 1..Len(P) |-> [j \in 1..Len(F) |->
                EFx(f, t.d[P[i]][F[j]], P[i] - 1, F[j] - 1, pz, skip)]]
    IN IF ~AllOk(P) \/ ~AllOk(F) THEN Err(t)
       ELSE IF \E i \in 1..Len(P), j \in 1..Len(F) : d[i][j] = RaiseV THEN Err(t)
       ELSE Outcome("yes", t, <<"t", [d |-> d, m |-> Len(F), pn |-> Anon(Len(P)), fn |-> Anon(Len(F)), ty |-> ty]>>)
MatchElements(t, f, plim, flim) ==
    LET P == IdxOrAll(t.pn, NPts(t), plim)
        F == IdxOrAll(t.fn, t.m, flim)
        d == [i \in 1..Len(P) |-> [j \in 1..Len(F) |-> EF(f, t.d[P[i]][F[j]], P[i] - 1, F[j] - 1)]]
    IN IF ~AllOk(P) \/ ~AllOk(F) THEN Err(t)
       ELSE Outcome("yes", t, <<"t", [d |-> d, m |-> Len(F), pn |-> Pick(t.pn, P), fn |-> Pick(t.fn, F), ty |-> t.ty]>>)
CountElements(t, f) ==
    Outcome("yes", t, <<"i", Cardinality({q \in (1..NPts(t)) \X (1..t.m) : IsTrue(EF(f, t.d[q[1]][q[2]], q[1] - 1, q[2] - 1))})>>)

\* user functions of one vector: a sequence, or RaiseV
VF(f, v) ==
    CASE f.k = "rev"  -> Rev(v)
      [] f.k = "self" -> v
      [] f.k = "map"  -> [i \in 1..Len(v) |-> LET r == EF(f.f, v[i], 0, 0) IN IF r = NoneV THEN Miss ELSE r]
      [] f.k = "const" -> f.v
      [] f.k = "rot"  -> [i \in 1..Len(v) |-> v[(i % Len(v)) + 1]]
      [] f.k = "sum"  -> <<SumSeq(v)>>
      [] f.k = "first" -> <<v[1]>>
      [] f.k = "pair" -> <<v[1], v[Len(v)]>>
      [] f.k = "len"  -> <<IntV(Len(v))>>
      [] f.k = "nmiss" -> <<IntV(Len(v) - Len(Known(v)))>>
AxisTransform(ax, t0, f, lim) ==
    LET t == Or(ax, t0)
        P == IdxOrAll(t.pn, NPts(t), lim)
        d == [i \in 1..NPts(t) |-> IF Contains1(P, i) THEN VF(f, t.d[i]) ELSE t.d[i]]
    IN IF ~AllOk(P) THEN Err(t0)
       ELSE IF \E i \in 1..NPts(t) : Len(d[i]) # t.m THEN Outcome("abort", t0, NoRet)
       ELSE Outcome("yes", Or(ax, [t EXCEPT !.d = d]), NoRet)
AxisCalculate(ax, t0, f, lim) ==
    LET t == Or(ax, t0)
        P == IdxOrAll(t.pn, NPts(t), lim)
        d == [k \in 1..Len(P) |-> VF(f, t.d[P[k]])]
        w == Len(d[1])
    IN IF ~AllOk(P) \/ P = <<>> THEN Err(t0)
       ELSE Outcome("yes", t0, <<"t", Or(ax, [d |-> d, m |-> w, pn |-> Pick(t.pn, P), fn |-> Anon(w), ty |-> t.ty])>>)
AxisMatching(rk, ax, t0, p, fname) ==
    LET t == Or(ax, t0)
        d == [i \in 1..NPts(t) |-> <<Bool(VecPred(rk, t.fn, p, t.pn[i], t.d[i]))>>]
    IN Outcome("yes", t0, <<"t", Or(ax, [d |-> d, m |-> 1, pn |-> t.pn, fn |-> <<fname>>, ty |-> t.ty])>>)
\* map over the vectors to <<key, value>> pairs, reduce each key's values
MapReduce(ax, t0, mapk, redk) ==
    LET t == Or(ax, t0)
        pairs == ConcatAll([i \in 1..NPts(t) |->
            CASE mapk = "id" -> <<<<t.d[i][1], t.d[i][t.m]>>>>
              [] mapk = "all" -> [j \in 1..t.m |-> <<IntV(j - 1), t.d[i][j]>>]])
        keys == Dedup([k \in 1..Len(pairs) |-> pairs[k][1]])
        vals(key) == LET s == SelectSeq(pairs, LAMBDA p : p[1] = key) IN [k \in 1..Len(s) |-> s[k][2]]
        red(key) == CASE redk = "sum" -> <<<<key, SumSeq(vals(key))>>>>
                      [] redk = "count" -> <<<<key, IntV(Len(vals(key)))>>>>
                      [] redk = "drop1" -> IF Len(vals(key)) < 2 THEN <<>> ELSE <<<<key, IntV(Len(vals(key)))>>>>
        d == ConcatAll([k \in 1..Len(keys) |-> red(keys[k])])
        w == IF d = <<>> THEN 0 ELSE 2
    IN Outcome("yes", t0, <<"t", [d |-> d, m |-> w, pn |-> Anon(Len(d)), fn |-> Anon(w), ty |-> t0.ty]>>)

\* --- replacement ----------------------------------------------------------
\* axis.replace: the vectors at lim (all of them / those named by the
\* replacement when lim is none) become the vectors of u, names unchanged
Replace(ax, t0, u0, lim) ==
    LET t == Or(ax, t0) u == Or(ax, u0)
        L == IF lim.k # "none" THEN ResolveAll(t.pn, lim.ids)
             ELSE IF NPts(t) = NPts(u) /\ t.m = u.m THEN Upto(NPts(t))
             ELSE IF Unnamed(t.pn) \/ Unnamed(u.pn) THEN <<0>>
             ELSE [k \in 1..NPts(u) |-> IF u.pn[k] = "" THEN 0 ELSE IndexOf(t.pn, u.pn[k])]
        d == [i \in 1..NPts(t) |-> IF Contains1(L, i) THEN u.d[IndexOf(L, i)] ELSE t.d[i]]
    IN IF ~AllOk(L) \/ ~NoDup(L) \/ Len(L) # NPts(u) \/ t.m # u.m THEN Err(t0)
       ELSE Outcome("yes", Or(ax, [t EXCEPT !.d = d]), NoRet)
\* replaceRectangle(value or table, pointStart, featureStart, pointEnd, featureEnd)
RectConst(t, c, ps, fs, pe, fe) ==
    LET a == Resolve(t.pn, ps) b == Resolve(t.fn, fs)
        x == Resolve(t.pn, pe) y == Resolve(t.fn, fe)
    IN IF 0 \in {a, b, x, y} \/ a > x \/ b > y THEN Err(t)
       ELSE Outcome("yes", [t EXCEPT !.d = [i \in 1..NPts(t) |-> [j \in 1..t.m |->
                IF i >= a /\ i <= x /\ j >= b /\ j <= y THEN c ELSE t.d[i][j]]]], NoRet)
RectTable(t, u, ps, fs, pe, fe) ==
    LET a == Resolve(t.pn, ps) b == Resolve(t.fn, fs)
        x == IF pe[1] = "none" THEN a + NPts(u) - 1 ELSE Resolve(t.pn, pe)
        y == IF fe[1] = "none" THEN b + u.m - 1 ELSE Resolve(t.fn, fe)
    IN IF 0 \in {a, b, x, y} \/ a > x \/ b > y \/ x > NPts(t) \/ y > t.m THEN Err(t)
       ELSE IF NPts(u) # x - a + 1 \/ u.m # y - b + 1 THEN Err(t)
       ELSE Outcome("yes", [t EXCEPT !.d = [i \in 1..NPts(t) |-> [j \in 1..t.m |->
                IF i >= a /\ i <= x /\ j >= b /\ j <= y THEN u.d[i - a + 1][j - b + 1] ELSE t.d[i][j]]]], NoRet)

\* --- fill -------------------------------------------------------------------
MatchCell(rk, mt, c) ==
    CASE mt.k = "val"  -> IF IsMiss(mt.c) THEN IsMiss(c) ELSE c = mt.c
      [] mt.k = "list" -> \E q \in 1..Len(mt.cs) : IF IsMiss(mt.cs[q]) THEN IsMiss(c) ELSE c = mt.cs[q]
      [] mt.k = "cmp"  -> Cmp(rk, mt.op, c, mt.c)
      [] mt.k = "missing" -> IsMiss(c)
      [] mt.k = "nonmissing" -> ~IsMiss(c)
      [] mt.k = "zero" -> IsZero(c)
      [] mt.k = "nonzero" -> ~IsZero(c)
      [] mt.k = "positive" -> IsNum(c) /\ c[2] > 0
      [] mt.k = "negative" -> IsNum(c) /\ c[2] < 0
      [] mt.k = "numeric" -> IsNum(c) \/ IsMiss(c)
      [] mt.k = "nonnumeric" -> IsStr(c)
RECURSIVE FFill(_, _)
FFill(v, m) == IF v = <<>> THEN <<>>
    ELSE LET n == Len(v) r == FFill(SubSeq(v, 1, n - 1), SubSeq(m, 1, n - 1))
         IN Append(r, IF m[n] THEN r[n - 1] ELSE v[n])
Interp(v, m, k) ==        \* value at position k from the unmatched neighbours
    LET L == {i \in 1..(k - 1) : ~m[i]} R == {i \in (k + 1)..Len(v) : ~m[i]}
        mx == CHOOSE i \in L : \A o \in L : o <= i
        mn == CHOOSE i \in R : \A o \in R : o >= i
    IN IF L = {} THEN v[mn] ELSE IF R = {} THEN v[mx]
       ELSE RAdd(v[mx], RMul(Rat(k - mx, mn - mx), RSub(v[mn], v[mx])))
\* RaiseVec when the vector cannot be filled
FillVec(rk, fw, v, m) ==
    LET un == Pick(v, Where(Len(v), LAMBDA i : ~m[i]))
        anyM == \E i \in 1..Len(v) : m[i]
        put(c) == [i \in 1..Len(v) |-> IF m[i] THEN c ELSE v[i]]
        stat(c) == IF ~anyM THEN v ELSE IF un = <<>> THEN RaiseVec ELSE IF IsMiss(c) THEN RaiseVec ELSE put(c)
    IN CASE fw.k = "const" -> put(fw.c)
         [] fw.k = "mean"   -> IF anyM /\ ~AllNum(Known(un)) THEN RaiseVec ELSE stat(IF anyM THEN Mean(un) ELSE Miss)
         [] fw.k = "median" -> IF anyM /\ ~AllNum(Known(un)) THEN RaiseVec ELSE stat(IF anyM THEN Median(un) ELSE Miss)
         [] fw.k = "mode"   -> stat(IF anyM THEN Mode(rk, un) ELSE Miss)
         [] fw.k = "ffill"  -> IF m[1] THEN RaiseVec ELSE FFill(v, m)
         [] fw.k = "bfill"  -> IF m[Len(v)] THEN RaiseVec ELSE Rev(FFill(Rev(v), Rev(m)))
         [] fw.k = "interp" -> IF ~anyM THEN v ELSE IF un = <<>> THEN RaiseVec
                               ELSE [i \in 1..Len(v) |-> IF m[i] THEN Interp(v, m, i) ELSE v[i]]
Fill(rk, ax, t0, fw, mt, lim) ==
    LET t == Or(ax, t0)
        P == IdxOrAll(t.pn, NPts(t), lim)
        \* a boolean object of the same shape marks the cells directly
        mask(i) == [j \in 1..t.m |-> IF mt.k = "mat" THEN IsTrue(Or(ax, mt.u).d[i][j])
                                                      ELSE MatchCell(rk, mt, t.d[i][j])]
        d == [i \in 1..NPts(t) |-> IF Contains1(P, i) THEN FillVec(rk, fw, t.d[i], mask(i)) ELSE t.d[i]]
    IN IF ~AllOk(P) THEN Err(t0)
       ELSE IF \E i \in 1..NPts(t) : d[i] = RaiseVec THEN Outcome("abort", t0, NoRet)
       ELSE Outcome("yes", Or(ax, [t EXCEPT !.d = d]), NoRet)
=============================================================================
