------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* Reading an object: item access, iteration, names, equality, conversion, *)
(* the match functions and query strings.  None of these changes it.       *)
(***************************************************************************)
EXTENDS Table, Stats

\* --- item access ------------------------------------------------------------
\* key: [k |-> "one", id] | [k |-> "list", ids] | [k |-> "slice", s, e, step]
\*      | [k |-> "mask", b].  Slices are inclusive.  Result: [ok, idx].
KeySel(names, key) ==
    LET n == Len(names)
        allIdx(ids) == LET idx == ResolveAll(names, ids)
                       IN IF AllOk(idx) /\ NoDup(idx) THEN SelOk(idx) ELSE SelErr
    IN CASE key.k = "one"   -> allIdx(<<key.id>>)
         [] key.k = "list"  -> allIdx(key.ids)
         [] key.k = "mask"  -> IF Len(key.b) # n THEN SelErr ELSE SelOk(Where(n, LAMBDA i : key.b[i]))
         [] key.k = "slice" ->
              IF n = 0 THEN (IF key.s[1] = "none" /\ key.e[1] = "none" THEN SelOk(<<>>) ELSE SelErr)
              ELSE
              LET up == key.step > 0
                  s == IF key.s[1] = "none" THEN (IF up THEN 1 ELSE n) ELSE Resolve(names, key.s)
                  e == IF key.e[1] = "none" THEN (IF up THEN n ELSE 1) ELSE Resolve(names, key.e)
                  st == Abs(key.step)
                  cnt == IF up THEN (IF e < s THEN 0 ELSE (e - s) \div st + 1)
                               ELSE (IF s < e THEN 0 ELSE (s - e) \div st + 1)
              IN IF s = 0 \/ e = 0 \/ key.step = 0 THEN SelErr
                 ELSE SelOk([k \in 1..cnt |-> IF up THEN s + (k - 1) * st ELSE s - (k - 1) * st])
\* an empty list of booleans cannot be told from an empty list of identifiers
Sub(t, pi, fi) == Tr(Rows(Tr(Rows(t, pi)), fi))
GetItem(t, x, y) ==
    LET p == KeySel(t.pn, x) f == KeySel(t.fn, y) IN
    IF ~p.ok \/ ~f.ok THEN Err(t)
    ELSE IF x.k = "one" /\ y.k = "one" THEN Outcome("yes", t, <<"c", t.d[p.idx[1]][f.idx[1]]>>)
    ELSE Outcome("yes", t, <<"t", Sub(t, p.idx, f.idx)>>)
\* one key only: the position in a vector, else a point or feature name
GetItem1(t, key) ==
    LET all == [k |-> "slice", s |-> <<"none">>, e |-> <<"none">>, step |-> 1]
        zero == [k |-> "one", id |-> <<"i", 0>>]
        name == IF key.k = "one" /\ key.id[1] = "s" THEN key.id[2] ELSE ""
        isP == name # "" /\ Contains1(t.pn, name)
        isF == name # "" /\ Contains1(t.fn, name)
    IN IF Len(t.d) = 1 THEN GetItem(t, zero, key)
       ELSE IF t.m = 1 THEN GetItem(t, key, zero)
       ELSE IF isP /\ ~isF THEN GetItem(t, key, all)
       ELSE IF isF /\ ~isP THEN GetItem(t, all, key)
       ELSE Err(t)
\* assigning through the same keys: one value everywhere, or one per location
PutItem(t, x, y, v) ==
    LET p == KeySel(t.pn, x) f == KeySel(t.fn, y)
        np == Len(p.idx) nf == Len(f.idx)
        at(s, i) == CHOOSE q \in 1..Len(s) : s[q] = i
        has(s, i) == \E q \in 1..Len(s) : s[q] = i
    IN IF ~p.ok \/ ~f.ok THEN Err(t)
       ELSE IF v.k = "many" /\ Len(v.cs) # np * nf THEN Err(t)
       ELSE Outcome("yes", [t EXCEPT !.d = [i \in 1..NPts(t) |-> [j \in 1..t.m |->
                IF ~has(p.idx, i) \/ ~has(f.idx, j) THEN t.d[i][j]
                ELSE IF v.k = "one" THEN v.c
                ELSE v.cs[(at(p.idx, i) - 1) * nf + at(f.idx, j)]]]], NoRet)
AxisItem(ax, t, key) ==
    LET s == KeySel(Or(ax, t).pn, key) IN
    IF ~s.ok THEN Err(t) ELSE Outcome("yes", t, <<"t", Or(ax, Rows(Or(ax, t), s.idx))>>)

\* --- views -------------------------------------------------------------------
ViewEnd(names, id, dflt) == IF id[1] = "none" THEN dflt ELSE Resolve(names, id)
View(t, ps, pe, fs, fe) ==
    LET n == Len(t.d)
        a == ViewEnd(t.pn, ps, 1) b == ViewEnd(t.pn, pe, n)
        c == ViewEnd(t.fn, fs, 1) d == ViewEnd(t.fn, fe, t.m)
        bad(lo, hi, e) == lo > hi /\ e[1] # "none"
    IN IF (ps[1] # "none" /\ a = 0) \/ (pe[1] # "none" /\ b = 0) \/ (fs[1] # "none" /\ c = 0)
          \/ (fe[1] # "none" /\ d = 0) \/ bad(a, b, pe) \/ bad(c, d, fe) THEN Err(t)
       ELSE Outcome("yes", t, <<"t", Sub(t, [k \in 1..(b - a + 1) |-> a + k - 1],
                                            [k \in 1..(d - c + 1) |-> c + k - 1])>>)

\* --- iteration -----------------------------------------------------------------
IterAxis(ax, t) == Outcome("yes", t, <<"ts", [i \in 1..NPts(Or(ax, t)) |-> <<"t", Or(ax, Rows(Or(ax, t), <<i>>))>>]>>)
CellPred(p, c) ==
    CASE p = "all" -> TRUE
      [] p = "missing" -> IsMiss(c)
      [] p = "nonMissing" -> ~IsMiss(c)
      [] p = "zero" -> IsZero(c)
      [] p = "nonZero" -> ~IsZero(c)
      [] p = "positive" -> (IsNum(c) /\ c[2] > 0) \/ c = <<"inf", 1>>
      [] p = "negative" -> (IsNum(c) /\ c[2] < 0) \/ c = <<"inf", -1>>
      [] p = "infinity" -> IsInf(c)
IterElems(t, order, only) ==
    Outcome("yes", t, <<"l", SelectSeq(Flat(IF order = "point" THEN t ELSE Tr(t)), LAMBDA c : CellPred(only, c))>>)
IterVector(t) == IF Len(t.d) <= 1 \/ t.m <= 1 THEN Outcome("yes", t, <<"l", Flat(t)>>) ELSE Err(t)
LenOp(t) == IF Len(t.d) = 0 \/ t.m = 0 THEN Outcome("yes", t, <<"i", 0>>)
            ELSE IF Len(t.d) = 1 THEN Outcome("yes", t, <<"i", t.m>>)
            ELSE IF t.m = 1 THEN Outcome("yes", t, <<"i", Len(t.d)>>) ELSE Err(t)

\* --- names ---------------------------------------------------------------------
GetIndex(ax, t, id) == LET k == Resolve(Or(ax, t).pn, id) IN
    IF k = 0 THEN Err(t) ELSE Outcome("yes", t, <<"i", k - 1>>)
GetIndices(ax, t, ids) == LET idx == ResolveAll(Or(ax, t).pn, ids) IN
    IF ~AllOk(idx) THEN Err(t) ELSE Outcome("yes", t, <<"l", [k \in 1..Len(idx) |-> IntV(idx[k] - 1)]>>)
GetName(ax, t, k) == LET i == Resolve(Or(ax, t).pn, <<"i", k>>) IN
    IF i = 0 THEN Err(t)
    ELSE Outcome("yes", t, IF Or(ax, t).pn[i] = "" THEN NoRet ELSE <<"c", <<"s", Or(ax, t).pn[i]>>>>)
HasName(ax, t, nm) == Outcome("yes", t, <<"b", Contains1(Or(ax, t).pn, nm)>>)
GetNames(ax, t) == Outcome("yes", t, <<"l", [k \in 1..NPts(Or(ax, t)) |->
                     IF Or(ax, t).pn[k] = "" THEN Miss ELSE <<"s", Or(ax, t).pn[k]>>]>>)
ContainsZero(t) == Outcome("yes", t, <<"b", \E i \in 1..Len(t.d) : \E j \in 1..t.m : IsZero(t.d[i][j])>>)

\* --- equality ---------------------------------------------------------------------
\* None and nan are one cell here, so with missing values of both kinds the
\* equality is not decided (a.mixed)
Identical(t, u, mixed) == IF mixed /\ t = u THEN Outcome("free", t, NoRet)
                          ELSE Outcome("yes", t, <<"b", t = u>>)
SameData(t, u) == t.d = u.d /\ t.m = u.m
\* approximate equality never denies equal data
ApproxEqual(t, u) == IF SameData(t, u) THEN Outcome("yes", t, <<"b", TRUE>>)
                     ELSE IF Len(t.d) # Len(u.d) \/ t.m # u.m THEN Outcome("yes", t, <<"b", FALSE>>)
                     ELSE Outcome("free", t, NoRet)

\* --- conversion ----------------------------------------------------------------------
CopyTo(t, ty, rows) == Outcome("yes", t, <<"t", [(IF rows THEN t ELSE Tr(t)) EXCEPT !.ty = ty]>>)
CopyRaw(t, rows) == Outcome("yes", t, <<"g", LET u == IF rows THEN t ELSE Tr(t) IN
                                            [i \in 1..Len(u.d) |-> u.d[i]]>>)
CopyFlat(t) == IF Len(t.d) # 1 /\ t.m # 1 THEN Err(t) ELSE Outcome("yes", t, <<"l", Flat(t)>>)
\* dictionaries keyed by feature name; unnamed features share no key
CopyDicts(t, rows) ==
    LET u == IF rows THEN t ELSE Tr(t) IN
    IF \E k \in 1..u.m : u.fn[k] = "" THEN Outcome("free", t, NoRet)
    ELSE Outcome("yes", t, <<"g", [i \in 1..(Len(u.d) + 1) |->
              IF i = 1 THEN [k \in 1..u.m |-> <<"s", u.fn[k]>>] ELSE u.d[i - 1]]>>)

\* --- match functions --------------------------------------------------------------------
\* v: [c, t]: a cell and the kind of python value it is
MatchFn(f, v) ==
    LET c == v.c k == v.t IN
    CASE f \in {"missing", "nonMissing"} -> IsMiss(c) = (f = "missing")
      [] f \in {"numeric", "nonNumeric"} -> (k \in {"int", "float"}) = (f = "numeric")
      [] f \in {"zero", "nonZero"} -> IsZero(c) = (f = "zero")
      [] f \in {"positive", "negative", "infinity"} -> CellPred(f, c)
      [] f = "boolean"  -> k = "bool"
      [] f = "integer"  -> k \in {"int", "bool"}
      [] f = "floating" -> k = "float"
      [] f \in {"true", "True"}  -> k = "bool" /\ c = One
      [] f \in {"false", "False"} -> k = "bool" /\ c = Zero
      [] f = "None" -> k = "none"
MatchAll(q, f, vs) == IF q = "any" THEN \E i \in 1..Len(vs) : MatchFn(f, vs[i])
                      ELSE \A i \in 1..Len(vs) : MatchFn(f, vs[i])
MatchConst(want, v) == IF IsMiss(want.c) THEN (IF want.t = "none" THEN v.t = "none" ELSE IsMiss(v.c) /\ v.t # "none")
                       ELSE want.c = v.c

\* --- query strings -----------------------------------------------------------------------
\* A query is the sequence of its words; the driver pairs the value with the
\* cell python's float() makes of it, if any.
CmpOps == {"==", "!=", ">=", ">", "<=", "<"}
QFns == {"missing", "nonMissing", "numeric", "nonNumeric", "zero", "nonZero", "positive", "negative",
         "infinity", "boolean", "integer", "floating", "true", "false", "True", "False", "None"}
QBad == [ok |-> "no"]
RECURSIVE JoinWords(_)
JoinWords(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o JoinWords(Tail(ws))
\* the reading of the words: [ok, w (element/axis), id, op/fn, neg]
\* ok "yes": the only operator decides; "any": more than one could
ReadQuery(ws) ==
    LET n == Len(ws)
        ops == {i \in 1..n : ws[i] \in CmpOps}
        iss == {i \in 1..n : ws[i] = "is"}
    IN IF ops = {} /\ iss = {} THEN QBad
       ELSE IF Cardinality(ops) = 1 /\ iss = {} THEN
            LET i == CHOOSE x \in ops : TRUE IN
            IF i = n THEN [ok |-> "any"]       \* no value given
            ELSE [ok |-> "yes", w |-> IF i = 1 THEN "element" ELSE "axis", kind |-> "cmp",
                  id |-> JoinWords(SubSeq(ws, 1, i - 1)), op |-> ws[i], neg |-> FALSE]
       ELSE IF ops = {} /\ Cardinality(iss) = 1 THEN
            LET i == CHOOSE x \in iss : TRUE
                neg == i < n /\ ws[i + 1] = "not"
                rest == SubSeq(ws, IF neg THEN i + 2 ELSE i + 1, n)
            IN IF Len(rest) # 1 THEN QBad
               ELSE IF rest[1] \notin QFns THEN QBad
               ELSE [ok |-> "yes", w |-> IF i = 1 THEN "element" ELSE "axis", kind |-> "is",
                     id |-> JoinWords(SubSeq(ws, 1, i - 1)), op |-> rest[1], neg |-> neg]
       ELSE [ok |-> "any"]
\* the query applied to one value
QueryValue(rk, q, want, v) ==
    IF q.kind = "is" THEN MatchFn(q.op, v) # q.neg ELSE Cmp(rk, q.op, v.c, want)
\* element query on one value; mode: "elem" / "axis" / "free" as constructed
ElemQuery(rk, t, ws, want, v, mode) ==
    LET q == ReadQuery(ws) IN
    IF q.ok = "any" THEN Outcome("free", t, NoRet)
    ELSE IF q.ok = "no" THEN Err(t)
    ELSE IF q.w # "element" \/ mode = "axis" THEN Err(t)
    ELSE Outcome("yes", t, <<"b", QueryValue(rk, q, want, v)>>)
\* a query over the vectors of an axis: kinds gives the python kind of cells
VecKind(kinds, i, j) == kinds[i][j]
QuerySel(rk, ax, t0, kinds, ws, want) ==
    LET t == Or(ax, t0) q == ReadQuery(ws) IN
    IF q.ok = "any" THEN [ok |-> "any", idx |-> <<>>]
    ELSE IF q.ok = "no" THEN [ok |-> "no", idx |-> <<>>]
    ELSE IF q.w # "axis" THEN [ok |-> "no", idx |-> <<>>]
    ELSE IF ~Contains1(t.fn, q.id) THEN [ok |-> "no", idx |-> <<>>]
    ELSE LET j == IndexOf(t.fn, q.id) IN
         [ok |-> "yes", idx |-> Where(NPts(t), LAMBDA i :
             QueryValue(rk, q, want, [c |-> t.d[i][j], t |-> IF ax = "p" THEN kinds[i][j] ELSE kinds[j][i]]))]
\* a string naming a member of the axis selects that member
QueryStruct(rk, ax, op, t0, kinds, ws, want) ==
    LET t == Or(ax, t0)
        nm == JoinWords(ws)
        s == IF Contains1(t.pn, nm) /\ op # "count" THEN [ok |-> "yes", idx |-> <<IndexOf(t.pn, nm)>>]
             ELSE QuerySel(rk, ax, t0, kinds, ws, want)
        in == Or(ax, Rows(t, s.idx)) out == Or(ax, Rows(t, Others(NPts(t), s.idx)))
    IN IF s.ok = "any" THEN Outcome("skip", t0, NoRet)
       ELSE IF s.ok = "no" THEN Err(t0)
       ELSE CASE op = "copy"    -> Outcome("yes", t0, <<"t", in>>)
              [] op = "extract" -> Outcome("yes", out, <<"t", in>>)
              [] op = "delete"  -> Outcome("yes", out, NoRet)
              [] op = "retain"  -> Outcome("yes", in, NoRet)
              [] op = "count"   -> Outcome("yes", t0, <<"i", Len(s.idx)>>)
\* element queries over a whole object
QueryElems(rk, op, t, kinds, ws, want) ==
    LET q == ReadQuery(ws)
        hit(i, j) == QueryValue(rk, q, want, [c |-> t.d[i][j], t |-> kinds[i][j]])
        table(P(_, _)) == Outcome("yes", t, <<"t", [t EXCEPT !.d =
                            [i \in 1..Len(t.d) |-> [j \in 1..t.m |-> Bool(P(i, j))]]]>>)
    IN IF q.ok = "any" THEN Outcome("free", t, NoRet)
       \* a string that is no element query is a value to match
       ELSE IF (q.ok = "no" \/ q.w # "element") /\ op = "match"
       THEN table(LAMBDA i, j : t.d[i][j] = <<"s", JoinWords(ws)>>)
       ELSE IF q.ok = "no" THEN Err(t)
       ELSE IF q.w # "element" THEN Err(t)
       ELSE IF op = "count"
       THEN Outcome("yes", t, <<"i", SumInts([i \in 1..Len(t.d) |->
                 Cardinality({j \in 1..t.m : hit(i, j)})])>>)
       ELSE table(hit)
=============================================================================
