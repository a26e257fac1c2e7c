------------------------------ MODULE Reshape ------------------------------
(***************************************************************************)
(* Operations that change the arrangement of a table: flatten / unflatten, *)
(* gather (splitByCollapsingFeatures) / spread (combineByExpandingFeatures)*)
(* parsing one feature into several, one-hot and integer encoding.         *)
(***************************************************************************)
EXTENDS Table

FirstSeen(q) == Pick(q, SelectSeq([k \in 1..Len(q) |-> k],
                     LAMBDA k : \A j \in 1..(k - 1) : q[j] # q[k]))

\* --- unflatten ---------------------------------------------------------------
\* parts: for each element the two halves of its "point | feature" name as the
\* caller wrote it, <<>> when some name has not that form.
Unflatten(t, dims, order, parts) ==
    LET n == dims[1] m == dims[2]
        flat == Flat(t)
        pos(i, j) == IF order = "point" THEN (i - 1) * m + j ELSE (j - 1) * n + i
        vec == Len(t.d) = 1 \/ t.m = 1
        ok == vec /\ Len(flat) > 0 /\ n * m = Len(flat)
        \* names of the form  P | F  are taken in order of first appearance, for an
        \* axis where their number matches; _PT#k and _FT#k stand for no name
        P == FirstSeen([k \in 1..Len(parts) |-> parts[k][1]])
        F == FirstSeen([k \in 1..Len(parts) |-> parts[k][2]])
        unP == { "_PT#" \o ToString(k) : k \in 0..(Len(flat) - 1) }
        unF == { "_FT#" \o ToString(k) : k \in 0..(Len(flat) - 1) }
        pn == [i \in 1..n |-> IF Len(P) # n \/ P[i] \in unP THEN "" ELSE P[i]]
        fn == [j \in 1..m |-> IF Len(F) # m \/ F[j] \in unF THEN "" ELSE F[j]]
    IN IF ~ok THEN Err(t)
       ELSE Outcome("yes", Mk(t, [i \in 1..n |-> [j \in 1..m |-> flat[pos(i, j)]]], m, pn, fn), NoRet)

\* --- gather --------------------------------------------------------------------
\* each point becomes one point per collapsed feature
NameCell(fn, k) == IF fn[k] = "" THEN IntV(k - 1) ELSE <<"s", fn[k]>>
Gather(t, ids, nname, vname) ==
    LET idx == ResolveAll(t.fn, ids)
        k == Len(ids)
        keep == Others(t.m, idx)
        row(r) == LET i == ((r - 1) \div k) + 1 c == ((r - 1) % k) + 1
                  IN Pick(t.d[i], keep) \o <<NameCell(t.fn, idx[c]), t.d[i][idx[c]]>>
        nm(r) == LET i == ((r - 1) \div k) + 1 c == ((r - 1) % k) + 1
                 IN IF t.pn[i] = "" THEN "" ELSE t.pn[i] \o "_" \o ToString(c - 1)
        fn == Pick(t.fn, keep) \o <<nname, vname>>
        N == Len(t.d) * k
        pn == [r \in 1..N |-> nm(r)]
    IN IF ~AllOk(idx) \/ ~DistinctNames(fn) \/ ~NoDup(idx) \/ ~DistinctNames(pn) THEN Err(t)
       ELSE Outcome("yes", Mk(t, [r \in 1..N |-> row(r)], Len(fn), pn, fn), NoRet)

\* --- spread --------------------------------------------------------------------
CellName(c) == IF c[1] = "s" THEN c[2] ELSE ToString(c[2])     \* whole numbers only
Spread(t, nameId, valIds, suffixes) ==
    LET nx == Resolve(t.fn, nameId)
        vx == ResolveAll(t.fn, valIds)
        keep == Others(t.m, <<nx>> \o vx)
        n == Len(t.d)
        Key(i) == Pick(t.d[i], keep)
        firsts == Where(n, LAMBDA i : \A j \in 1..(i - 1) : Key(j) # Key(i))
        labels == Dedup([i \in 1..n |-> t.d[i][nx]])
        clash == \E i, j \in 1..n : i < j /\ Key(i) = Key(j) /\ t.d[i][nx] = t.d[j][nx]
        lnames == [k \in 1..Len(labels) |-> CellName(labels[k])]
        Src(i, c) == Where(n, LAMBDA j : Key(j) = Key(i) /\ t.d[j][nx] = c)
        vals(i, c) == LET s == Src(i, c) IN
                      IF s = <<>> THEN [q \in 1..Len(vx) |-> Miss] ELSE Pick(t.d[s[1]], vx)
        cut == IF nx - 1 < Len(keep) THEN nx - 1 ELSE Len(keep)
        splice(s, mid) == SubSeq(s, 1, cut) \o mid \o SubSeq(s, cut + 1, Len(s))
        newNames == ConcatAll([k \in 1..Len(labels) |->
                       IF Len(vx) = 1 THEN <<lnames[k]>>
                       ELSE [q \in 1..Len(vx) |-> lnames[k] \o "_" \o suffixes[q]]])
        row(i) == splice(Key(i), ConcatAll([k \in 1..Len(labels) |-> vals(i, labels[k])]))
        fn == splice(Pick(t.fn, keep), newNames)
    IN IF nx = 0 \/ ~AllOk(vx) \/ ~NoDup(<<nx>> \o vx) THEN Err(t)
       ELSE IF clash \/ ~NoDup(lnames) \/ ~DistinctNames(fn) THEN Err(t)
       ELSE Outcome("yes", Mk(t, [k \in 1..Len(firsts) |-> row(firsts[k])], Len(fn), Pick(t.pn, firsts), fn), NoRet)

\* --- parsing -------------------------------------------------------------------
\* parts[i]: what the value of point i splits into under the rule (<<>>: the
\* rule fails on it)
Parse(t, id, parts, names) ==
    LET x == Resolve(t.fn, id)
        k == Len(names)
        splice(s, mid) == SubSeq(s, 1, x - 1) \o mid \o SubSeq(s, x + 1, Len(s))
        fn == splice(t.fn, names)
    IN IF x = 0 \/ (\E i \in 1..Len(t.d) : Len(parts[i]) # k) \/ ~DistinctNames(fn) THEN Err(t)
       ELSE Outcome("yes", Mk(t, [i \in 1..Len(t.d) |-> splice(t.d[i], parts[i])], t.m - 1 + k, t.pn, fn), NoRet)

\* --- encodings -----------------------------------------------------------------
\* labels: the value each new feature stands for, as its name says
OneHot(t, id, labels, names) ==
    LET x == Resolve(t.fn, id)
        col == [i \in 1..Len(t.d) |-> t.d[i][x]]
        uniq == Dedup(col)
        splice(s, mid) == SubSeq(s, 1, x - 1) \o mid \o SubSeq(s, x + 1, Len(s))
        fn == splice(t.fn, names)
        row(i) == splice(t.d[i], [k \in 1..Len(labels) |-> Bool(t.d[i][x] = labels[k])])
    IN IF x = 0 \/ Len(t.d) = 0 THEN Err(t)
       ELSE IF Len(labels) # Len(uniq) \/ Range1(labels) # Range1(uniq)
       THEN Outcome("yes", [t EXCEPT !.fn = <<"one feature per distinct value">>], NoRet)
       ELSE IF ~DistinctNames(fn) THEN Err(t)
       ELSE Outcome("yes", Mk(t, [i \in 1..Len(t.d) |-> row(i)], t.m - 1 + Len(labels), t.pn, fn),
                    <<"l", [k \in 1..Len(names) |-> <<"s", names[k]>>]>>)

\* the code of a value is its position among the distinct values, zero first
IntCode(t, id) ==
    LET x == Resolve(t.fn, id)
        col == [i \in 1..Len(t.d) |-> t.d[i][x]]
        u0 == Dedup(col)
        uniq == IF Contains1(u0, Zero) THEN <<Zero>> \o SelectSeq(u0, LAMBDA c : c # Zero) ELSE u0
    IN IF x = 0 \/ Len(t.d) = 0 THEN Err(t)
       ELSE Outcome("yes", Mk(t, [i \in 1..Len(t.d) |->
                              [t.d[i] EXCEPT ![x] = IntV(IndexOf(uniq, t.d[i][x]) - 1)]], t.m, t.pn, t.fn),
                    <<"l", uniq>>)
=============================================================================
