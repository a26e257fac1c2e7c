------------------------------ MODULE Backend ------------------------------
(***************************************************************************)
(* Learning with an external package.  A learner of the package is a class  *)
(* L that is instantiated with parameters, is fitted and then predicts,      *)
(* transforms or scores.  The machine holds trained learners; a call of the  *)
(* user determines which calls the package must receive, with which          *)
(* parameters, data and further arguments, and what the user gets from what  *)
(* the package answers.                                                      *)
(*                                                                          *)
(* L = [init: its parameters with their defaults, fit: the names of further  *)
(* arguments of fit, app: of the method that applies it, meth: this method,   *)
(* score: the method that scores or "", sapp: its further arguments, type,   *)
(* rnd: whether it takes a seed, inits: for other classes that may be given  *)
(* as parameter their parameters with their defaults].                       *)
(* A value is <<"v", text>> or <<"init", class, parameters>>.                *)
(***************************************************************************)
EXTENDS Learn

NamesOf(s) == {s[i][1] : i \in 1..Len(s)}
RECURSIVE Val(_)
Val(v) == IF v[1] = "v" THEN v
          ELSE <<"init", v[2], {<<v[3][i][1], Val(v[3][i][2])>> : i \in 1..Len(v[3])}>>
Set(s) == {<<s[i][1], Val(s[i][2])>> : i \in 1..Len(s)}
Keys(S) == {p[1] : p \in S}
Over(base, new) == {p \in base : p[1] \notin Keys(new)} \cup new
Only(S, names) == {p \in S : p[1] \in names}
Seed == "random_state"

Defs(L, c) == L.inits[CHOOSE i \in 1..Len(L.inits) : L.inits[i][1] = c][2]
RECURSIVE Full(_, _), ValOk(_, _)
\* a class given as parameter is instantiated with its own defaults
Full(L, v) == IF v[1] = "v" THEN v
              ELSE LET given == {<<v[3][i][1], Full(L, v[3][i][2])>> : i \in 1..Len(v[3])}
                   IN <<"init", v[2], Over(Set(Defs(L, v[2])), given)>>
ValOk(L, v) == v[1] = "v" \/
               (/\ \E i \in 1..Len(L.inits) : L.inits[i][1] = v[2]
                /\ NamesOf(v[3]) \subseteq NamesOf(Defs(L, v[2]))
                /\ \A i \in 1..Len(v[3]) : ValOk(L, v[3][i][2]))
Params(L) == NamesOf(L.init) \cup Range1(L.fit) \cup Range1(L.app)
ArgsOk(L, args) == \A i \in 1..Len(args) : /\ args[i][1] \in Params(L)
                                           /\ args[i][1] # Seed
                                           /\ ValOk(L, args[i][2])
Given(L, args) == {<<args[i][1], Full(L, args[i][2])>> : i \in 1..Len(args)}
Labels1(y) == {y[i][1] : i \in 1..Len(y)}

\* training: what fit must receive, and the learner
BTrained(L, x, y, args) ==
    LET s == Split(x, y) IN
    IF s.ok = "no" \/ ~ArgsOk(L, args) THEN [ok |-> "no"]
    ELSE IF s.m = 0 \/ Len(s.x) = 0 THEN [ok |-> "any"]
    ELSE LET g == Given(L, args) IN
         [ok |-> "yes",
          fit |-> [params |-> Over(Set(L.init), Only(g, NamesOf(L.init))),
                   x |-> s.x,
                   y |-> IF y[1] = "none" THEN <<"none">>
                         ELSE IF Len(s.yn) = 1 THEN <<"v", [i \in 1..Len(s.y) |-> s.y[i][1]]>>
                         ELSE <<"a", s.y>>,
                   extra |-> Only(g, Range1(L.fit))],
          tl |-> [L |-> L, args |-> args, g |-> g, n |-> Len(s.x), m |-> s.m, y |-> s.y, yn |-> s.yn, labeled |-> y[1] # "none"]]
BRetrained(tl, x, y, args) == BTrained(tl.L, x, y, Updated(tl.args, args))

\* one call of the package, as received, against what it must be
FitV(want, c, seed) ==
    IF {p \in Set(c.params) : p[1] # Seed} # {p \in want.params : p[1] # Seed} THEN "parameters"
    ELSE IF seed # <<"none">> /\ Seed \in NamesOf(c.params) /\ <<Seed, seed>> \notin Set(c.params) THEN "seed"
    ELSE IF c.x # want.x THEN "fit-data"
    ELSE IF c.y # want.y THEN "fit-labels"
    ELSE IF Set(c.extra) # want.extra THEN "fit-arguments"
    ELSE "ok"

Widths(tl, z) == IF z.m = tl.m THEN "yes" ELSE IF tl.n = tl.m /\ Len(z.d) = z.m THEN "any" ELSE "no"
\* the arguments a method takes: the new ones, else those of training
Uses(tl, names, new) == Over(Only(tl.g, Range1(names)), Given(tl.L, new))

\* an array answered by the package, as rows
GridOf(o) == IF o[1] = "v" THEN [i \in 1..Len(o[2]) |-> <<o[2][i]>>] ELSE o[2]
Usable(o) == o[1] \in {"v", "a"}
\* scores of all labels in their order from what the package answers
Pair(i, j, n) == CHOOSE k \in 1..((n * (n - 1)) \div 2) :       \* position of the pair i < j
    k = Cardinality({p \in (1..n) \X (1..n) : p[1] < p[2] /\ (p[1] < i \/ (p[1] = i /\ p[2] <= j))})
\* signs of the scores of all pairs: positive for the first label
Wins(sg, i, n) == Cardinality({j \in 1..n : (i < j /\ sg[Pair(i, j, n)] > 0) \/ (j < i /\ sg[Pair(j, i, n)] < 0)})
AllScores(tl, ls, c, ovo) ==
    LET g == GridOf(c.out) n == Len(ls) IN
    IF n = 2 /\ Len(g[1]) = 1 THEN [i \in 1..Len(g) |-> <<c.neg[i], g[i][1]>>]
    ELSE IF ovo THEN [i \in 1..Len(g) |-> [k \in 1..n |-> RDiv(IntV(Wins(c.sign[i], k, n)), IntV(n - 1))]]
    ELSE g
Ovo(tl) == <<"decision_function_shape", <<"v", "'ovo'">>>> \in tl.g
=============================================================================
