------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* Base.merge: joining two tables on point names or on a shared feature.   *)
(*   o.point, o.feature \in {"strict","left","union","intersection"}       *)
(*   o.on    identifier of the feature to join on, <<"none">> = names      *)
(*   o.force strict without names                                          *)
(* The result keeps the left points in order, each combined with every     *)
(* matching right point in order; a union appends the unmatched right      *)
(* points.  Joined on a feature, the result has no point names, and a      *)
(* union is sorted by that feature.                                        *)
(***************************************************************************)
EXTENDS Table

MName(L, R, on) ==       \* the feature joined on: its name, "" none, "!" invalid
    IF on[1] = "none" THEN ""
    ELSE IF on[1] = "s" THEN (IF Contains1(L.fn, on[2]) /\ Contains1(R.fn, on[2]) THEN on[2] ELSE "!")
    ELSE LET a == Resolve(L.fn, on) b == Resolve(R.fn, on)
         IN IF a = 0 \/ b = 0 THEN "!"
            ELSE IF L.fn[a] = "" \/ L.fn[a] # R.fn[b] THEN "!" ELSE L.fn[a]
KeyCol(t, f) == LET j == IndexOf(t.fn, f) IN [i \in 1..NPts(t) |-> t.d[i][j]]

MixedKeys(ks) == \E i, j \in 1..Len(ks) : IsNum(ks[i]) /\ IsStr(ks[j])

MergeGeneral(rk, L, R, point, feature, on) ==
    LET nm == MName(L, R, on)
        kl == KeyCol(L, nm)
        kr == KeyCol(R, nm)
        lf == [j \in 1..R.m |-> IF R.fn[j] = "" THEN 0 ELSE IndexOf(L.fn, R.fn[j])]
        rf == [i \in 1..L.m |-> IF L.fn[i] = "" THEN 0 ELSE IndexOf(R.fn, L.fn[i])]
        same(i, j) == IF nm # "" THEN kl[i] = kr[j] ELSE L.pn[i] # "" /\ L.pn[i] = R.pn[j]
        ms(i) == Where(NPts(R), LAMBDA j : same(i, j))
        lone == Where(NPts(R), LAMBDA j : \A i \in 1..NPts(L) : ~same(i, j))
        conflict == \E i \in 1..NPts(L) : \E j \in 1..NPts(R) : same(i, j) /\
                      \E k \in 1..L.m : rf[k] # 0 /\ ~IsMiss(L.d[i][k]) /\ ~IsMiss(R.d[j][rf[k]])
                                                  /\ L.d[i][k] # R.d[j][rf[k]]
        lc == IF feature = "intersection" THEN Where(L.m, LAMBDA k : rf[k] # 0) ELSE Upto(L.m)
        rc == IF feature = "union" THEN Where(R.m, LAMBDA j : lf[j] = 0) ELSE <<>>
        miss(n) == [k \in 1..n |-> Miss]
        joined(i, j) == [k \in 1..Len(lc) |-> IF rf[lc[k]] # 0 /\ IsMiss(L.d[i][lc[k]])
                                              THEN R.d[j][rf[lc[k]]] ELSE L.d[i][lc[k]]] \o Pick(R.d[j], rc)
        leftOnly(i) == Pick(L.d[i], lc) \o miss(Len(rc))
        rightOnly(j) == [k \in 1..Len(lc) |-> IF rf[lc[k]] # 0 THEN R.d[j][rf[lc[k]]] ELSE Miss] \o Pick(R.d[j], rc)
        rowsOf(i) == IF ms(i) # <<>> THEN [q \in 1..Len(ms(i)) |-> joined(i, ms(i)[q])]
                     ELSE IF point = "intersection" THEN <<>> ELSE <<leftOnly(i)>>
        body == ConcatAll([i \in 1..NPts(L) |-> rowsOf(i)])
        extra == IF point = "union" THEN [q \in 1..Len(lone) |-> rightOnly(lone[q])] ELSE <<>>
        d == body \o extra
        pn == IF nm # "" THEN [i \in 1..Len(d) |-> ""]
              ELSE (IF point = "intersection" THEN SelectSeq(L.pn, LAMBDA x : x # "" /\ Contains1(R.pn, x)) ELSE L.pn)
                   \o (IF point = "union" THEN Pick(R.pn, lone) ELSE <<>>)
        fn == Pick(L.fn, lc) \o Pick(R.fn, rc)
        t == Mk(L, d, Len(fn), pn, fn)
        unique == NoDup(kl) \/ NoDup(kr)
    IN IF nm = "!" THEN Err(L)
       ELSE IF nm # "" /\ ~unique THEN Err(L)
       ELSE IF conflict THEN Err(L)
       \* keys of different kinds have no order
       ELSE IF nm # "" /\ point = "union" /\ MixedKeys(kl \o kr) THEN Outcome("any", t, NoRet)
       ELSE IF nm # "" /\ point = "union"
            THEN Outcome("yes", SortBy(rk, "p", t, [k |-> "ids", ids |-> <<<<"s", nm>>>>], FALSE).post, NoRet)
            ELSE Outcome("yes", t, NoRet)

\* whether names exist at all decides if a merge by name is possible; names
\* that are all unset may or may not count, so either answer is accepted then
Weak(o, b) == IF b /\ o.ok = "yes" THEN [o EXCEPT !.ok = "any"] ELSE o

StrictName(i) == "_STRICT" \o ToString(i - 1)
\* names given to the strict axis while merging: <<ok, left, right, end>>
StrictNames(l, r, force) ==
    LET n == Len(l)
        mg == [i \in 1..n |-> IF l[i] = "" THEN r[i] ELSE l[i]]
        st == [i \in 1..n |-> IF mg[i] = "" THEN StrictName(i) ELSE mg[i]]
    IN IF FullyNamed(l) /\ FullyNamed(r)
       THEN <<IF Range1(l) = Range1(r) THEN "yes" ELSE "no", l, r, l>>
       ELSE IF ~force THEN <<"no", l, r, l>>
       ELSE IF ~DistinctNames(mg) THEN <<"no", l, r, l>>
       \* names that disagree at one index are not described: either answer
       ELSE <<IF \E i \in 1..n : l[i] # "" /\ r[i] # "" /\ l[i] # r[i] THEN "any" ELSE "yes", st, st, mg>>
MergeOp(rk, L, R, o) ==
    LET strictP == o.point = "strict"
        strictF == o.feature = "strict"
        byF == o.on[1] # "none"
        noP == ~byF /\ (Unnamed(L.pn) \/ Unnamed(R.pn))
        noF == Unnamed(L.fn) \/ Unnamed(R.fn)
        keep(x) == IF x.ok = "no" THEN Err(L) ELSE x
    IN IF strictP /\ strictF THEN Err(L)
       ELSE IF strictP THEN
            IF NPts(L) # NPts(R) THEN Err(L)
            ELSE IF byF THEN
                LET nm == MName(L, R, o.on) IN
                IF nm = "!" \/ nm = "" THEN Err(L)
                ELSE IF MixedKeys(KeyCol(L, nm) \o KeyCol(R, nm)) THEN Outcome("open", L, NoRet)
                ELSE IF ~NoDup(KeyCol(L, nm)) \/ Range1(KeyCol(L, nm)) # Range1(KeyCol(R, nm)) THEN Err(L)
                ELSE Weak(keep(MergeGeneral(rk, L, R, "intersection", o.feature, o.on)), noF)
            ELSE LET s == StrictNames(L.pn, R.pn, o.force)
                     m == MergeGeneral(rk, [L EXCEPT !.pn = s[2]], [R EXCEPT !.pn = s[3]], "intersection", o.feature, o.on)
                 IN IF s[1] = "no" \/ m.ok = "no" THEN Err(L)
                    ELSE Weak(Outcome(IF m.ok = "any" THEN "any" ELSE s[1], [m.post EXCEPT !.pn = s[4]], NoRet), noF)
       ELSE IF strictF THEN
            IF L.m # R.m THEN Err(L)
            ELSE LET s == StrictNames(L.fn, R.fn, o.force)
                     m == MergeGeneral(rk, [L EXCEPT !.fn = s[2]], [R EXCEPT !.fn = s[3]], o.point, "intersection",
                                       o.on)
                     \* a feature that has a name only once the objects are combined
                     late == o.on[1] = "i" /\ Resolve(L.fn, o.on) # 0 /\ L.fn[Resolve(L.fn, o.on)] = ""
                 IN IF late THEN Outcome("open", L, NoRet) ELSE IF s[1] = "no" \/ m.ok = "no" THEN Err(L)
                    ELSE Weak(Outcome(IF m.ok = "any" THEN "any" ELSE s[1], [m.post EXCEPT !.fn = s[4]], NoRet), noP)
       ELSE Weak(keep(MergeGeneral(rk, L, R, o.point, o.feature, o.on)), noP \/ noF)
=============================================================================
