----------------------------- MODULE TableLaws -----------------------------
(***************************************************************************)
(* The table operations as a transition system, and the laws a user reads  *)
(* off the documentation, checked for every table up to MaxN points and    *)
(* MaxM features over a few cell values and every pattern of names.        *)
(*   Sound     every operation on a well-formed table gives a well-formed  *)
(*             table (so names stay unique and rectangles stay rectangles  *)
(*             along every history), and refused calls change nothing      *)
(*   the others are algebraic laws that tie the operations to each other,  *)
(* so the definitions in Table, Reshape, Merge and Query are not merely    *)
(* restated by the conformance check.                                      *)
(***************************************************************************)
EXTENDS Table, Reshape, Merge, Query, Arith
CONSTANTS MaxN, MaxM, Cells, Deep

VARIABLES tbl, steps
tvars == <<tbl, steps>>

ptNames == {"", "a", "b"}
ftNames == {"", "f", "g"}
rkAll == <<"", "a", "a_1", "b", "f", "g", "h", "k", "s">>
NamesOf(S, n) == {s \in [1..n -> S] : DistinctNames(s)}
DataOf(C, n, m) == [1..n -> [1..m -> C]]
TablesOf(C, P, F, n, m) ==
    { [d |-> d, m |-> m, pn |-> p, fn |-> f, ty |-> "List"] :
        d \in DataOf(C, n, m), p \in NamesOf(P, n), f \in NamesOf(F, m) }
\* second operands: all shapes, two cell values, some names clash and some do not
Others2(n, m) == TablesOf({Zero, IntV(5)}, {"", "a", "c"}, {"", "f", "h"}, n, m)

axes == {"p", "f"}
Idents(names) == {<<"i", k>> : k \in (0 - Len(names) - 1)..Len(names)} \cup {<<"s", names[k]>> : k \in 1..Len(names)}
                 \cup {<<"s", "zzz">>}
Sels(t) == [k : {"ids"}, ids : UNION {[1..k -> Idents(t.pn)] : k \in 0..2}]
           \cup [k : {"range"}, s : Idents(t.pn) \cup {<<"none">>}, e : {<<"i", 0>>, <<"i", -1>>, <<"none">>}]
Perms(n) == {p \in [1..n -> 1..n] : NoDup(p)}
AsIds(p) == [k \in 1..Len(p) |-> <<"i", p[k] - 1>>]
InvOf(p) == [k \in 1..Len(p) |-> IndexOf(p, k)]

ItemKeys == {[k |-> "one", id |-> <<"i", 0>>], [k |-> "list", ids |-> <<<<"i", 1>>, <<"i", 0>>>>]}
            \cup [k : {"slice"}, s : {<<"none">>, <<"i", 1>>}, e : {<<"none">>, <<"i", 0>>}, step : {-1, 1, 2}]
\* every outcome that one operation may have on t
Outcomes(t) ==
    { Structural(rkAll, ax, op, t, s, n) : ax \in axes, op \in {"copy", "extract", "delete", "retain", "count"},
                                          s \in Sels(t), n \in 0..2 }
    \cup { SetNamesAll("p", t, s) : s \in [1..NPts(t) -> ptNames] }
    \cup { SetNamesAll("f", t, s) : s \in [1..t.m -> ftNames] }
    \cup UNION { { SetNamesSome(ax, t, <<i>>, <<nm>>) : i \in Idents(Or(ax, t).pn), nm \in {"", "a", "f", "b"} } : ax \in axes }
    \cup UNION { { Permute(ax, t, AsIds(p)) : p \in Perms(NPts(Or(ax, t))) } : ax \in axes }
    \cup { SortBy(rkAll, ax, t, [k |-> "names"], r) : ax \in axes, r \in BOOLEAN }
    \cup { SortBy(rkAll, ax, t, [k |-> "ids", ids |-> <<<<"i", 0>>>>], r) : ax \in axes, r \in BOOLEAN }
    \cup { Repeat(ax, t, k, b) : ax \in axes, k \in 0..2, b \in BOOLEAN }
    \cup { Unique(ax, t) : ax \in axes }
    \cup { Flatten(t, o) : o \in {"point", "feature"} }
    \cup { Gather(t, <<<<"i", 0>>>>, "k", "s"), Gather(t, <<<<"i", 0>>, <<"i", 1>>>>, "k", "s") }
    \cup { GetItem(t, x, y) : x \in ItemKeys, y \in ItemKeys }

TablesIn(o) == {o.post} \cup (IF o.ret[1] = "t" THEN {o.ret[2]} ELSE {})
\* a frame (shape and names) is chosen first, then its cells
Frame == [d |-> <<>>, m |-> 0, pn |-> <<>>, fn |-> <<>>, ty |-> "List"]
Init == /\ steps = 0
        /\ \E n \in 0..MaxN, m \in 0..MaxM :
             \E p \in NamesOf(ptNames, n), f \in NamesOf(ftNames, m) :
                tbl = [Frame EXCEPT !.d = [i \in 1..n |-> <<>>], !.m = m, !.pn = p, !.fn = f]
CellSet == {Zero, One, Miss}
CellSet2 == {Zero, Miss}
Next == \/ /\ steps = 0
           /\ \E d \in DataOf(Cells, Len(tbl.pn), tbl.m) : tbl' = [tbl EXCEPT !.d = d]
           /\ steps' = 1
        \/ /\ Deep /\ steps = 1
           /\ \E o \in Outcomes(tbl) : \E u \in TablesIn(o) :
                 /\ NPts(u) <= MaxN /\ u.m <= MaxM
                 /\ tbl' = u
           /\ steps' = 2
Spec == Init /\ [][Next]_tvars
At0 == steps > 0

\* --- the laws ----------------------------------------------------------------
Sound == At0 => \A o \in Outcomes(tbl) :
            /\ (o.ok = "no" => o.post = tbl)
            /\ (o.ok = "yes" => \A u \in TablesIn(o) : WellFormed(u))
\* copy and retain agree; extract and delete agree; what is taken and what is
\* left together are the whole, every member exactly once
Partition == At0 => \A ax \in axes, s \in Sels(tbl), n \in 0..1 :
    LET do(op) == Structural(rkAll, ax, op, tbl, s, n)
        c == do("copy") x == do("extract") d == do("delete") r == do("retain") k == do("count")
    IN /\ \A o \in {x, d, r, k} : o.ok = c.ok
       /\ c.ok = "yes" =>
            /\ c.post = tbl /\ c.ret = x.ret
            /\ x.post = d.post
            /\ r.post = c.ret[2]
            /\ k.ret[2] = NPts(Or(ax, r.post))
            /\ NPts(Or(ax, r.post)) + NPts(Or(ax, d.post)) = NPts(Or(ax, tbl))
            /\ \A row \in Range1(Or(ax, tbl).d) :
                   LET occ(u) == Cardinality({i \in 1..NPts(Or(ax, u)) : Or(ax, u).d[i] = row})
                   IN occ(tbl) = occ(r.post) + occ(d.post)
\* extracting and inserting again at the end only moves the members
Reinsert == At0 => \A ax \in axes, s \in Sels(tbl) :
    LET x == Structural(rkAll, ax, "extract", tbl, s, 0)
    IN x.ok = "yes" =>
        LET t == Or(ax, tbl)
            b == Insert(ax, x.post, x.ret[2], NPts(Or(ax, x.post))) idx == Select(rkAll, t, s).idx
        IN b.ok = "yes" /\ b.post = Permute(ax, tbl, AsIds(Others(NPts(t), idx) \o idx)).post
Involution == At0 => Tr(Tr(tbl)) = tbl
Permuting == At0 => \A ax \in axes : \A p \in Perms(NPts(Or(ax, tbl))) :
    LET a == Permute(ax, tbl, AsIds(p)) b == Permute(ax, a.post, AsIds(InvOf(p)))
    IN a.ok = "yes" /\ b.ok = "yes" /\ b.post = tbl
\* a sorted table is a permutation of the table; sorting again changes
\* nothing; the keys are in order
Sorting == At0 => \A ax \in axes, r \in BOOLEAN :
    LET by == [k |-> "ids", ids |-> <<<<"i", 0>>>>]
        a == SortBy(rkAll, ax, tbl, by, r)
        u == Or(ax, a.post) t == Or(ax, tbl)
    IN a.ok = "yes" =>
        /\ SortBy(rkAll, ax, a.post, by, r).post = a.post \/ \E i \in 1..NPts(t) : IsMiss(t.d[i][1])
        /\ \E p \in Perms(NPts(t)) : Permute(ax, tbl, AsIds(p)).post = a.post
        /\ (\A i \in 1..NPts(t) : ~IsMiss(t.d[i][1])) =>
              \A i, j \in 1..NPts(u) : i < j => IF r THEN ~CellLt(rkAll, u.d[i][1], u.d[j][1])
                                                  ELSE ~CellLt(rkAll, u.d[j][1], u.d[i][1])
Distinct == At0 => \A ax \in axes :
    LET u == Unique(ax, tbl).ret[2] IN
        /\ NoDup(Or(ax, u).d)
        /\ Range1(Or(ax, u).d) = Range1(Or(ax, tbl).d)
        /\ Unique(ax, u).ret[2] = u
Repeating == At0 => \A ax \in axes, b \in BOOLEAN :
    LET u == Repeat(ax, tbl, 2, b).ret[2] IN
        /\ NPts(Or(ax, u)) = 2 * NPts(Or(ax, tbl))
        /\ Unique(ax, u).ret[2].d = Unique(ax, tbl).ret[2].d
\* flatten then unflatten by the dimensions and names gives the table back;
\* the halves of the names are what FlatName joined
Halves(t, order) ==
    LET n == NPts(t) m == t.m
        pt(i) == IF t.pn[i] = "" THEN "_PT#" \o ToString(i - 1) ELSE t.pn[i]
        ft(j) == IF t.fn[j] = "" THEN "_FT#" \o ToString(j - 1) ELSE t.fn[j]
    IN IF Unnamed(t.pn) /\ Unnamed(t.fn) THEN [k \in 1..(n * m) |-> <<>>]
       ELSE [k \in 1..(n * m) |-> IF order = "point" THEN <<pt(((k - 1) \div m) + 1), ft(((k - 1) % m) + 1)>>
                                  ELSE <<pt(((k - 1) % n) + 1), ft(((k - 1) \div n) + 1)>>]
Flattening == At0 => \A o \in {"point", "feature"} :
    LET f == Flatten(tbl, o)
        named == ~(Unnamed(tbl.pn) /\ Unnamed(tbl.fn))
        b == Unflatten(f.post, <<NPts(tbl), tbl.m>>, o, IF named THEN Halves(tbl, o) ELSE <<>>)
    IN f.ok = "yes" => b.ok = "yes" /\ b.post = tbl
\* gather then spread: the table again, the features in the order collapsed
Spreading == (At0 /\ tbl.m > 0 /\ NPts(tbl) > 0 /\ FullyNamed(tbl.fn)) =>
      \A c \in 1..tbl.m :
        LET ids == [k \in 1..c |-> <<"i", tbl.m - c + k - 1>>]
            g == Gather(tbl, ids, "k", "s")
            b == Spread(g.post, <<"s", "k">>, <<<<"s", "s">>>>, <<"">>)
            keep == Pick(tbl.fn, Upto(tbl.m - c))
            keys == [i \in 1..NPts(tbl) |-> SubSeq(tbl.d[i], 1, tbl.m - c)]
        IN g.ok = "yes" => /\ NPts(g.post) = NPts(tbl) * c
                           /\ (NoDup(keys) => (b.ok = "yes" /\ b.post.d = tbl.d /\ b.post.fn = tbl.fn))
                           /\ (~NoDup(keys) => b.ok = "no")
\* joining: the table with itself by its point names or on a key feature, a
\* left join keeps every point once, the intersection is within the union
Joining == (At0 /\ FullyNamed(tbl.pn) /\ FullyNamed(tbl.fn) /\ NPts(tbl) > 0 /\ tbl.m > 0) =>
      LET o(p, f, on) == [point |-> p, feature |-> f, on |-> on, force |-> FALSE]
          nn == <<"none">>
      IN /\ \A p, f \in {"left", "union", "intersection"} : MergeOp(rkAll, tbl, tbl, o(p, f, nn)).post = tbl
         /\ \A u \in Others2(NPts(tbl), tbl.m) :
              LET m(p, f) == MergeOp(rkAll, tbl, u, o(p, f, nn))
                  rows(x) == {<<x.post.pn[i], x.post.d[i]>> : i \in 1..NPts(x.post)}
              IN (FullyNamed(u.pn) /\ FullyNamed(u.fn)) =>
                  \A f \in {"left", "union", "intersection"} :
                    /\ m("left", f).ok = m("intersection", f).ok
                    /\ m("left", f).ok = "yes" =>
                         /\ WellFormed(m("union", f).post)
                         /\ m("left", f).post.pn = tbl.pn
                         /\ Range1(m("intersection", f).post.pn) = Range1(tbl.pn) \cap Range1(u.pn)
                         /\ Range1(m("union", f).post.pn) = Range1(tbl.pn) \cup Range1(u.pn)
                         /\ rows(m("intersection", f)) \subseteq rows(m("left", f))
                         /\ rows(m("left", f)) \subseteq rows(m("union", f))
                         /\ Range1(m("left", "union").post.fn) = Range1(tbl.fn) \cup Range1(u.fn)
                         /\ Range1(m("left", "intersection").post.fn) = Range1(tbl.fn) \cap Range1(u.fn)
\* inserting: the members before, the new ones, the members after
Inserting == At0 => \A u \in Others2(1, tbl.m), at \in 0..NPts(tbl) :
    LET o == Insert("p", tbl, u, at) IN
      o.ok = "yes" =>
        LET range == [k |-> "range", s |-> <<"i", at>>, e |-> <<"i", at>>]
            x == Structural(rkAll, "p", "extract", o.post, range, 0)
        IN WellFormed(o.post) /\ x.post = tbl /\ x.ret[2].pn = u.pn
           /\ Range1(x.ret[2].d[1]) = Range1(u.d[1])
\* points and features are the same thing seen from two sides
Dual == At0 => \A s \in Sels(Tr(tbl)), op \in {"copy", "delete", "retain"} :
    LET a == Structural(rkAll, "p", op, Tr(tbl), s, 0) b == Structural(rkAll, "f", op, tbl, s, 0)
    IN a.ok = b.ok /\ a.post = Tr(b.post) /\ (op = "copy" /\ a.ok = "yes" => a.ret[2] = Tr(b.ret[2]))
============================================================================
