-------------------------------- MODULE Dims --------------------------------
(***************************************************************************)
(* Objects of more than two dimensions.  The first dimension is the points; *)
(* the others only shape each point.  An object is a table (one row of      *)
(* cells per point) together with its dimensions, and every operation that  *)
(* is allowed treats the points exactly as in two dimensions and keeps the  *)
(* inner dimensions; all other operations are refused.                      *)
(***************************************************************************)
EXTENDS Verdict

Plain(h) == [d |-> h.d, m |-> h.m, pn |-> h.pn, fn |-> h.fn, ty |-> h.ty]
HD(t, dims) == [d |-> t.d, m |-> t.m, pn |-> t.pn, fn |-> t.fn, ty |-> t.ty, dims |-> dims]
Inner(h) == Tail(h.dims)
\* a table of points of the shape of h's points
Shaped(h, t) == HD(t, <<Len(t.d)>> \o Inner(h))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
High(h) == Len(h.dims) > 2

\* outcome of a two-dimensional operation, in the dimensions of h
Lift(h, o) == [ok |-> o.ok,
               post |-> Shaped(h, o.post),
               ret |-> IF o.ret[1] = "t" THEN <<"t", Shaped(h, o.ret[2])>> ELSE o.ret]
\* one point: the object has a dimension less and no names
Drop(h, i) ==
    LET k == Inner(h) rest == Prod(Tail(k))
    IN HD([d |-> [q \in 1..k[1] |-> SubSeq(h.d[i], (q - 1) * rest + 1, q * rest)], m |-> rest,
           pn |-> Anon(k[1]), fn |-> Anon(rest), ty |-> h.ty], k)
All2(dims) == <<dims[1], Prod(Tail(dims))>>

HdOutcome(e) ==
    LET a == e.a h == e.pre t == Plain(h) IN
    CASE a.op = "refused" -> Err(h)
      [] a.op = "structural" -> IF a.sel.k = "fn" \/ a.strct = "count" THEN Err(h)
                                ELSE Lift(h, Structural(e.rk, "p", a.strct, t, a.sel, a.num))
      [] a.op = "setNames" -> Lift(h, SetNamesAll(a.ax, t, a.new))
      [] a.op = "setNamesOld" -> Lift(h, SetNamesSome(a.ax, t, a.olds, a.new))
      [] a.op = "permute" -> Lift(h, Permute("p", t, a.ids))
      [] a.op = "sort" -> IF a.by.k = "ids" THEN Err(h) ELSE Lift(h, SortBy(e.rk, "p", t, a.by, a.rev))
      [] a.op = "insert" ->
            IF Inner(a.other) # Inner(h) THEN Err(h)
            ELSE Lift(h, Insert("p", t, Plain(a.other),
                     IF a.at[1] = "end" \/ a.at = <<"i", Len(t.d)>> THEN Len(t.d) ELSE Resolve(t.pn, a.at) - 1))
      [] a.op = "repeat" -> Lift(h, Repeat("p", t, a.k, a.byVec))
      [] a.op = "unique" -> Lift(h, Unique("p", t))
      [] a.op = "replace" -> IF Inner(a.u) # Inner(h) THEN Err(h) ELSE Lift(h, Replace("p", t, Plain(a.u), a.lim))
      [] a.op = "point" -> LET k == Resolve(t.pn, a.id) IN
                           IF k = 0 THEN Err(h) ELSE Outcome("yes", h, <<"t", Drop(h, k)>>)
      [] a.op = "points" -> Lift(h, AxisItem("p", t, a.key))
      [] a.op = "view" -> IF a.part THEN Err(h) ELSE Lift(h, View(t, a.ps, a.pe, <<"none">>, <<"none">>))
      [] a.op = "iter" -> Outcome("yes", h, <<"ts", [k \in 1..Len(t.d) |-> <<"t", Drop(h, k)>>]>>)
      [] a.op = "copyTo" -> Lift(h, CopyTo(t, a.ty, TRUE))
      [] a.op = "raw" -> Outcome("yes", h, <<"nd", h.dims, Flat(t)>>)
      [] a.op = "flatten" -> IF Len(t.d) = 0 \/ t.m = 0 THEN Err(h)
                             ELSE LET o == Flatten(t, "point") IN
                                  Outcome("yes", HD(o.post, <<1, Len(t.d) * t.m>>), NoRet)
      [] a.op = "unflatten" ->
            IF (Len(t.d) # 1 /\ t.m # 1) \/ High(h) \/ Prod(a.dims) # Len(t.d) * t.m THEN Err(h)
            ELSE LET c == Flat(t) w == Prod(Tail(a.dims))
                 IN Outcome("yes", HD([d |-> [i \in 1..a.dims[1] |-> SubSeq(c, (i - 1) * w + 1, i * w)], m |-> w,
                                       pn |-> Anon(a.dims[1]), fn |-> Anon(w), ty |-> t.ty], a.dims), NoRet)
      [] a.op = "binScalar" -> Lift(h, BinScalar(t, a.bop, a.c, a.rev, a.inp))
      [] a.op = "binTable" -> IF a.u.dims # h.dims THEN Err(h)
                              ELSE Lift(h, BinTable(t, a.bop, Plain(a.u), a.inp))
      [] a.op = "unary" -> Lift(h, Unary(t, a.uop))
      [] a.op = "identical" -> IF a.u.dims # h.dims THEN Outcome("yes", h, <<"b", FALSE>>)
                               ELSE Lift(h, Identical(t, Plain(a.u), FALSE))
      [] a.op = "approx" -> IF a.u.dims # h.dims THEN Outcome("yes", h, <<"b", FALSE>>)
                            ELSE Lift(h, ApproxEqual(t, Plain(a.u)))
      [] a.op = "containsZero" -> Lift(h, ContainsZero(t))
      [] a.op = "split" ->          \* trainAndTestSets without shuffling: the last points are the test set
            LET n == Len(t.d)
                part(i, j) == <<"t", Shaped(h, Rows(t, [k \in 1..(j - i + 1) |-> i + k - 1]))>>
            IN Outcome("yes", h, <<"ts", <<part(1, n - a.k), part(n - a.k + 1, n)>>>>)
      \* hdf files hold no feature names
      [] a.op = "saved" -> IF a.fmt = "pickle" THEN Lift(h, Outcome("yes", t, <<"t", t>>))
                           ELSE Lift(h, Outcome(IF a.odd THEN "any" ELSE "yes", t,
                                    <<"t", [t EXCEPT !.fn = Anon(t.m), !.pn = IF a.names THEN t.pn ELSE Anon(Len(t.d))]>>))

HDiff(a, b) == IF a.dims # b.dims THEN "dimensions" ELSE TDiff(Plain(a), Plain(b))
\* every comparison is made on tables of the same form, so Judge applies; the
\* component that differs is refined when it is the dimensions
JHd(e) ==
    LET o == HdOutcome(e) v == Judge(o, e.pre, e.post, e.ret, e.exc) IN
    IF v = "post-other" THEN "post-dimensions" ELSE IF v = "ret-other" THEN "ret-dimensions" ELSE v
=============================================================================
