------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* The abstract state of one nimble data object and the meaning of the     *)
(* structural operations on it.  A table is a record                       *)
(*   d  : sequence of points, each a sequence of cells                     *)
(*   m  : number of features (needed when there are no points)             *)
(*   pn : point names, "" where the point is unnamed                       *)
(*   fn : feature names, likewise                                          *)
(*   ty : "List" | "Matrix" | "Sparse" | "DataFrame"                       *)
(* The representation is NOT part of the meaning: no operator below looks  *)
(* at ty, it is only carried along.                                        *)
(*                                                                         *)
(* An outcome is a record [ok, post, ret]: ok = "yes" the call must        *)
(* succeed, "no" it must raise (and then change nothing), "any" either.    *)
(***************************************************************************)
EXTENDS Val

NPts(t) == Len(t.d)
NFts(t) == t.m

DistinctNames(s) == \A i, j \in 1..Len(s) : i # j /\ s[i] # "" => s[i] # s[j]
\* Every table the library hands out satisfies this
WellFormed(t) ==
    /\ \A i \in 1..Len(t.d) : Len(t.d[i]) = t.m
    /\ Len(t.pn) = Len(t.d)
    /\ Len(t.fn) = t.m
    /\ DistinctNames(t.pn)
    /\ DistinctNames(t.fn)

Mk(t, d, m, pn, fn) == [t EXCEPT !.d = d, !.m = m, !.pn = pn, !.fn = fn]

\* Transposition: rows become columns
Tr(t) == [t EXCEPT !.d  = [j \in 1..t.m |-> [i \in 1..Len(t.d) |-> t.d[i][j]]],
                   !.m  = Len(t.d), !.pn = t.fn, !.fn = t.pn]
\* Orient a table so that axis ax ("p" or "f") runs along the rows, and back
Or(ax, t) == IF ax = "p" THEN t ELSE Tr(t)

\* --- identifiers ---------------------------------------------------------
\* <<"i", k>>: position k (negative from the end); <<"s", name>>: a name.
\* Resolve to 1..Len(names), or 0 when there is no such member.
Resolve(names, id) ==
    LET n == Len(names) IN
    IF id[1] = "i" THEN
        IF id[2] >= 0 /\ id[2] < n THEN id[2] + 1
        ELSE IF id[2] < 0 /\ id[2] >= -n THEN n + id[2] + 1
        ELSE 0
    ELSE IF id[2] = "" THEN 0 ELSE IndexOf(names, id[2])
ResolveAll(names, ids) == [k \in 1..Len(ids) |-> Resolve(names, ids[k])]
AllOk(idx) == \A k \in 1..Len(idx) : idx[k] # 0

\* --- taking rows ----------------------------------------------------------
Rows(t, idx) == Mk(t, Pick(t.d, idx), t.m, Pick(t.pn, idx), t.fn)
Others(n, idx) == SelectSeq(Upto(n), LAMBDA i : ~Contains1(idx, i))

\* --- predicates on one vector (a row of the oriented table) ---------------
\* on = names along the vector; rk = rank of strings
RECURSIVE VecPred(_, _, _, _, _)
VecPred(rk, on, p, nm, v) ==
    CASE p.k = "cmp"  -> Cmp(rk, p.op, v[Resolve(on, p.id)], p.v)
      [] p.k = "any"  -> \E i \in 1..Len(v) : Cmp(rk, p.op, v[i], p.v)
      [] p.k = "all"  -> \A i \in 1..Len(v) : Cmp(rk, p.op, v[i], p.v)
      [] p.k = "not"  -> ~VecPred(rk, on, p.p, nm, v)
      [] p.k = "name" -> nm = p.v[2]
      [] p.k = "miss" -> IsMiss(v[Resolve(on, p.id)])
      [] p.k = "const"-> p.b

\* --- selections -------------------------------------------------------------
\* A selection yields [ok, idx]: the selected members in selection order.
SelErr == [ok |-> FALSE, idx |-> <<>>]
SelOk(idx) == [ok |-> TRUE, idx |-> idx]
LimitTable(t, lim) ==     \* restrict the vectors seen by a predicate
    IF lim.k = "none" THEN t
    ELSE LET li == ResolveAll(t.fn, lim.ids)
         IN Tr(Rows(Tr(t), li))
Select(rk, t, sel) ==
    LET n == NPts(t) IN
    CASE sel.k = "ids" ->
            LET idx == ResolveAll(t.pn, sel.ids)
            IN IF ~AllOk(idx) \/ ~NoDup(idx) THEN SelErr ELSE SelOk(idx)
      [] sel.k = "range" ->
            LET s == IF sel.s[1] = "none" THEN 1 ELSE Resolve(t.pn, sel.s)
                e == IF sel.e[1] = "none" THEN n ELSE Resolve(t.pn, sel.e)
            IN IF s = 0 \/ e = 0 \/ s > e THEN SelErr
               ELSE SelOk([k \in 1..(e - s + 1) |-> s + k - 1])
      [] sel.k = "fn" ->
            IF sel.lim.k # "none" /\ (~AllOk(ResolveAll(t.fn, sel.lim.ids)) \/ ~NoDup(ResolveAll(t.fn, sel.lim.ids)))
            THEN SelErr
            ELSE LET u == LimitTable(t, sel.lim)
                 IN SelOk(Where(n, LAMBDA i : VecPred(rk, u.fn, sel.p, u.pn[i], u.d[i])))
      [] sel.k = "all" -> SelOk(Upto(n))
      [] sel.k = "bad" -> SelErr

\* the number argument: take the first `number` (0 = not given)
Take(sr, number) ==
    IF ~sr.ok \/ number = 0 THEN sr
    ELSE IF number > Len(sr.idx) THEN SelErr ELSE SelOk(SubSeq(sr.idx, 1, number))

Outcome(ok, post, ret) == [ok |-> ok, post |-> post, ret |-> ret]
NoRet == <<"none">>
Err(t) == Outcome("no", t, NoRet)

\* copy / extract / delete / retain / count of the members of axis ax
Structural(rk, ax, op, t0, sel, number) ==
    LET t  == Or(ax, t0)
        sr == Take(Select(rk, t, sel), number)
        in == Rows(t, sr.idx)
        out == Rows(t, Others(NPts(t), sr.idx))
        B(x) == Or(ax, x)
    IN IF ~sr.ok THEN Err(t0)
       ELSE CASE op = "copy"    -> Outcome("yes", t0, <<"t", B(in)>>)
              [] op = "extract" -> Outcome("yes", B(out), <<"t", B(in)>>)
              [] op = "delete"  -> Outcome("yes", B(out), NoRet)
              [] op = "retain"  -> Outcome("yes", B(in), NoRet)
              [] op = "count"   -> Outcome("yes", t0, <<"i", Len(sr.idx)>>)

\* With randomize the choice is free: the result must be some `number`
\* distinct members of the selection, and the rest must keep their order.
StructuralRandomOk(rk, ax, op, t0, sel, number, exc, post, ret) ==
    LET t == Or(ax, t0)
        sr == Select(rk, t, sel)
        valid == sr.ok /\ number > 0 /\ number <= Len(sr.idx)
        got == IF op = "copy" \/ op = "extract" THEN Or(ax, ret[2])
               ELSE Or(ax, post)
        sub == {s \in SUBSET Range1(sr.idx) : Cardinality(s) = number}
        restOf(s) == Rows(t, Where(NPts(t), LAMBDA i : i \notin s))
        \* rows of the event are pairwise distinct, so an order is recoverable
        isPerm(u, s) == /\ NPts(u) = number
                        /\ u.m = t.m /\ u.fn = t.fn
                        /\ \A i \in s : \E k \in 1..number : u.d[k] = t.d[i] /\ u.pn[k] = t.pn[i]
        NoTy(u) == [u EXCEPT !.ty = ""]
    IN IF ~valid THEN (IF exc THEN "ok" ELSE "missing-exception")
       ELSE IF exc THEN "unexpected-exception"
       ELSE IF op \in {"copy", "extract"} /\ ret[1] # "t" THEN "ret-kind"
       ELSE CASE op = "copy" ->
                    IF post # t0 THEN "post"
                    ELSE IF \E s \in sub : isPerm(got, s) THEN "ok" ELSE "random-selection"
              [] op = "extract" ->
                    IF \E s \in sub : isPerm(got, s) /\ Or(ax, restOf(s)) = post
                    THEN "ok" ELSE "random-partition"
              [] op = "delete" ->
                    IF \E s \in sub : Or(ax, restOf(s)) = post THEN "ok" ELSE "random-rest"
              [] op = "retain" ->
                    IF \E s \in sub : isPerm(got, s) THEN "ok" ELSE "random-selection"

\* --- names ----------------------------------------------------------------
SetNamesAll(ax, t0, new) ==          \* new: sequence of names, "" = no name
    LET t == Or(ax, t0) IN
    IF Len(new) # NPts(t) \/ ~DistinctNames(new) THEN Err(t0)
    ELSE Outcome("yes", Or(ax, [t EXCEPT !.pn = new]), NoRet)
SetNamesSome(ax, t0, olds, new) ==
    LET t == Or(ax, t0)
        idx == ResolveAll(t.pn, olds)
        after == [i \in 1..NPts(t) |->
                    IF Contains1(idx, i) THEN new[IndexOf(idx, i)] ELSE t.pn[i]]
        \* a swap through names in use is refused by design
        inUse == \E k \in 1..Len(new) : /\ new[k] # "" /\ Contains1(t.pn, new[k])
                                        /\ t.pn[idx[k]] # new[k]
    IN IF NPts(t) = 0 \/ Len(olds) # Len(new) \/ Len(new) > NPts(t) THEN Err(t0)
       ELSE IF ~AllOk(idx) THEN Err(t0)
       ELSE IF ~NoDup(idx) \/ ~DistinctNames(new) \/ inUse \/ ~DistinctNames(after) THEN Err(t0)
       ELSE Outcome("yes", Or(ax, [t EXCEPT !.pn = after]), NoRet)

\* --- order ----------------------------------------------------------------
Permute(ax, t0, ids) ==
    LET t == Or(ax, t0) idx == ResolveAll(t.pn, ids) IN
    IF ~AllOk(idx) \/ Len(idx) # NPts(t) \/ ~NoDup(idx) THEN Err(t0)
    ELSE Outcome("yes", Or(ax, Rows(t, idx)), NoRet)

\* keys of a row: a sequence of cells compared lexicographically
RECURSIVE KeyLt(_, _, _)
KeyLt(rk, a, b) == IF a = <<>> THEN FALSE
                   ELSE IF CellLt(rk, Head(a), Head(b)) THEN TRUE
                   ELSE IF CellLt(rk, Head(b), Head(a)) THEN FALSE
                   ELSE KeyLt(rk, Tail(a), Tail(b))
SortBy(rk, ax, t0, by, rev) ==
    LET t == Or(ax, t0) n == NPts(t) IN
    CASE by.k = "names" ->
            IF \E i \in 1..n : t.pn[i] = "" THEN Err(t0)
            ELSE Outcome("yes", Or(ax, Rows(t, StablePerm(n,
                    LAMBDA i, j : RankOf(rk, t.pn[i]) < RankOf(rk, t.pn[j]), rev))), NoRet)
      [] by.k = "ids" ->
            LET idx == ResolveAll(t.fn, by.ids) IN
            IF ~AllOk(idx) THEN Err(t0)
            ELSE Outcome("yes", Or(ax, Rows(t, StablePerm(n,
                    LAMBDA i, j : KeyLt(rk, Pick(t.d[i], idx), Pick(t.d[j], idx)), rev))), NoRet)
      [] by.k = "sum" ->
            Outcome("yes", Or(ax, Rows(t, StablePerm(n,
                    LAMBDA i, j : RLt(SumSeq(t.d[i]), SumSeq(t.d[j])), rev))), NoRet)

\* --- insertion ------------------------------------------------------------
\* May the off-axis names of the two objects be reconciled?  Positions where
\* both are named must agree, or all names are given and are a permutation.
Unnamed(s) == \A i \in 1..Len(s) : s[i] = ""
FullyNamed(s) == \A i \in 1..Len(s) : s[i] # ""
Consistent(a, b) == \A i \in 1..Len(a) : a[i] = b[i] \/ (a[i] = "" /\ ~Contains1(a, b[i]))
                                                   \/ (b[i] = "" /\ ~Contains1(b, a[i]))
SamePermutation(a, b) == FullyNamed(a) /\ FullyNamed(b) /\ Range1(a) = Range1(b)
Mergeable(a, b) == Unnamed(a) \/ Unnamed(b) \/ Consistent(a, b) \/ SamePermutation(a, b)
Insert(ax, t0, u0, at) ==            \* at: rows before the inserted ones
    LET t == Or(ax, t0) u == Or(ax, u0)
        share == \E i \in 1..Len(t.pn) : t.pn[i] # "" /\ Contains1(u.pn, t.pn[i])
        reorder == ~Unnamed(t.fn) /\ SamePermutation(t.fn, u.fn)
        cols == IF reorder THEN [k \in 1..t.m |-> IndexOf(u.fn, t.fn[k])] ELSE Upto(t.m)
        rows == [i \in 1..NPts(u) |-> Pick(u.d[i], cols)]
        cat(a, b) == SubSeq(a, 1, at) \o b \o SubSeq(a, at + 1, Len(a))
    IN IF t.m # u.m \/ share \/ ~Mergeable(t.fn, u.fn) \/ at < 0 THEN Err(t0)
       ELSE Outcome("yes", Or(ax, Mk(t, cat(t.d, rows), t.m, cat(t.pn, u.pn), t.fn)), NoRet)

Repeat(ax, t0, k, byVec) ==
    LET t == Or(ax, t0) n == NPts(t)
        idx == IF byVec THEN [i \in 1..(n * k) |-> ((i - 1) \div k) + 1]
                        ELSE [i \in 1..(n * k) |-> ((i - 1) % n) + 1]
        cnt == IF byVec THEN [i \in 1..(n * k) |-> ((i - 1) % k) + 1]
                        ELSE [i \in 1..(n * k) |-> ((i - 1) \div n) + 1]
        nm == [i \in 1..(n * k) |-> IF t.pn[idx[i]] = "" THEN ""
                                    ELSE t.pn[idx[i]] \o "_" \o ToString(cnt[i])]
    IN IF k < 1 THEN Err(t0)
       ELSE IF k = 1 THEN Outcome("yes", t0, <<"t", t0>>)
       ELSE Outcome("yes", t0, <<"t", Or(ax, Mk(t, Pick(t.d, idx), t.m, nm, t.fn))>>)

\* distinct vectors, first occurrence kept
Unique(ax, t0) ==
    LET t == Or(ax, t0)
        idx == Where(NPts(t), LAMBDA i : \A j \in 1..(i - 1) : t.d[j] # t.d[i])
    IN Outcome("yes", t0, <<"t", Or(ax, Rows(t, idx))>>)

\* --- reshaping ------------------------------------------------------------
Flat(t) == ConcatAll(t.d)
FlatName(i, p, j, f) == (IF p = "" THEN "_PT#" \o ToString(i - 1) ELSE p) \o " | " \o
                        (IF f = "" THEN "_FT#" \o ToString(j - 1) ELSE f)
Flatten(t, order) ==
    LET n == NPts(t) m == t.m
        u == IF order = "point" THEN t ELSE Tr(t)
        named == ~(Unnamed(t.pn) /\ Unnamed(t.fn))
        nm == IF ~named THEN [k \in 1..(n * m) |-> ""]
              ELSE IF order = "point"
              THEN [k \in 1..(n * m) |-> LET i == ((k - 1) \div m) + 1 j == ((k - 1) % m) + 1
                                         IN FlatName(i, t.pn[i], j, t.fn[j])]
              ELSE [k \in 1..(n * m) |-> LET j == ((k - 1) \div n) + 1 i == ((k - 1) % n) + 1
                                         IN FlatName(i, t.pn[i], j, t.fn[j])]
    IN IF n = 0 \/ m = 0 THEN Err(t)
       ELSE Outcome("yes", Mk(t, <<Flat(u)>>, n * m, <<"Flattened">>, nm), NoRet)
=============================================================================
