-------------------------------- MODULE Tune --------------------------------
(***************************************************************************)
(* Hyperparameter tuning: how argument sets are chosen (Chosen) and how one *)
(* is judged (Judged): by predictions for points which the learner was not  *)
(* trained with.  The points held out are observed from the real run; the   *)
(* module says which observations are allowed and computes everything else. *)
(*                                                                          *)
(* An argument set is a sequence of <<name, integer>>; the arguments given  *)
(* are a sequence of <<name, values>>: more than one value to be tuned      *)
(* (or exactly one, given as Tune).                                         *)
(***************************************************************************)
EXTENDS Learn, TLC

\* --- which argument sets are validated, given the performance P of each ---------
RECURSIVE Product(_)
Product(given) ==           \* the last argument varies fastest
    IF given = <<>> THEN <<<<>>>>
    ELSE LET rest == TLCEval(Product(Tail(given))) vs == given[1][2] IN
         ConcatAll([i \in 1..Len(vs) |-> [j \in 1..Len(rest) |-> <<<<given[1][1], vs[i]>>>> \o rest[j]]])
ArgSets(given) == LET p == TLCEval(Product(given)) IN {p[i] : i \in 1..Len(p)}
SetArg(as, k, v) == [i \in 1..Len(as) |-> IF as[i][1] = k THEN <<k, v>> ELSE as[i]]
Better(max, p, q) == IF max THEN RLt(q, p) ELSE RLt(p, q)
\* first of the best
RECURSIVE BestOf(_, _, _)
BestOf(seq, P, max) ==
    IF Len(seq) = 1 THEN seq[1]
    ELSE LET b == BestOf(SubSeq(seq, 1, Len(seq) - 1), P, max) z == seq[Len(seq)]
         IN IF Better(max, P[z], P[b]) THEN z ELSE b

ValuesOf(given, k) == given[CHOOSE i \in 1..Len(given) : given[i][1] = k][2]
FirstOf(given) == [i \in 1..Len(given) |-> <<given[i][1], given[i][2][1]>>]
\* one argument after the other, the others as in the best set so far
RECURSIVE Along(_, _, _, _, _, _)
Along(seq, base, k, vs, P, max) ==
    IF vs = <<>> THEN seq
    ELSE LET s == SetArg(base, k, vs[1]) IN
         Along(IF Contains1(seq, s) THEN seq ELSE Append(seq, s), base, k, Tail(vs), P, max)
RECURSIVE Coordinates(_, _, _, _, _)
Coordinates(seq, given, ks, P, max) ==
    IF ks = <<>> THEN seq
    ELSE Coordinates(Along(seq, BestOf(seq, P, max), ks[1], ValuesOf(given, ks[1]), P, max), given, Tail(ks), P, max)
RECURSIVE Loops(_, _, _, _, _, _)
Loops(n, seq, given, ks, P, max) ==
    IF n = 0 THEN seq ELSE Loops(n - 1, Coordinates(seq, given, ks, P, max), given, ks, P, max)
\* the first set to be validated is that of the first values
Consecutive(given, ks, n, P, max) == Loops(n, <<FirstOf(given)>>, given, ks, P, max)

\* from the middle of the increasing values to better neighbours, all tuned arguments
\* at once; left open where the rule is not stated: neighbours that are equally good
\* and moves which are good alone but not together
RECURSIVE IncreasingInts(_)
IncreasingInts(S) == IF S = {} THEN <<>>
                     ELSE LET m == CHOOSE c \in S : \A d \in S : c <= d IN <<m>> \o IncreasingInts(S \ {m})
RECURSIVE Climb(_, _, _, _, _, _, _)
Climb(seq, vs, at, left, stop(_), P, max) ==     \* vs, at: by position of the argument
    LET cur == seq[Len(seq)] k == Len(cur)
        Put1(i, v) == [cur EXCEPT ![i] = <<cur[i][1], v>>]
        Low(i) == IF at[i] > 1 THEN Put1(i, vs[i][at[i] - 1]) ELSE cur
        High(i) == IF at[i] < Len(vs[i]) THEN Put1(i, vs[i][at[i] + 1]) ELSE cur
        lb(i) == Better(max, P[Low(i)], P[cur])
        hb(i) == Better(max, P[High(i)], P[cur])
        tie(i) == lb(i) /\ hb(i) /\ P[Low(i)] = P[High(i)]
        step(i) == IF ~lb(i) /\ ~hb(i) THEN 0
                   ELSE IF hb(i) /\ (~lb(i) \/ Better(max, P[High(i)], P[Low(i)])) THEN 1 ELSE -1
        moved == [i \in 1..k |-> at[i] + step(i)]
        new == [i \in 1..k |-> <<cur[i][1], vs[i][moved[i]]>>]
    IN IF left = 0 \/ stop(P[cur]) \/ \A i \in 1..k : step(i) = 0 THEN [open |-> FALSE, seq |-> seq]
       ELSE IF (\E i \in 1..k : tie(i)) \/ ~Better(max, P[new], P[cur]) THEN [open |-> TRUE, seq |-> seq]
       ELSE Climb(Append(seq, new), vs, moved, left - 1, stop, P, max)
Iterative(given, n, stop(_), P, max) ==
    LET vs == [i \in 1..Len(given) |-> IncreasingInts(Range1(given[i][2]))]
        mid == [i \in 1..Len(given) |-> (Len(vs[i]) \div 2) + 1] IN
    Climb(<<[i \in 1..Len(given) |-> <<given[i][1], vs[i][mid[i]]>>]>>, vs, mid, n - 1, stop, P, max)

\* best first, equal ones in the order they were validated
RECURSIVE Sorted(_, _, _)
Sorted(seq, P, max) ==
    IF seq = <<>> THEN <<>>
    ELSE LET b == BestOf(seq, P, max) i == CHOOSE j \in 1..Len(seq) : seq[j] = b IN
         <<b>> \o Sorted(SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq)), P, max)

\* --- how an argument set is judged ----------------------------------------------
MaxBest(p) == p \in {"right", "high"}
Perform(p, known, pred) == IF p \in {"low", "high"} THEN Mean(LAMBDA i : pred[i], Len(pred)) ELSE Perf(p, known, pred)

Filter(s, P(_)) == SelectSeq(s, P)
Split2(s, n) == [i \in 1..(Len(s) \div n) |-> SubSeq(s, (i - 1) * n + 1, i * n)]
NoRepeat(s) == Cardinality(Range1(s)) = Len(s)
Full(n) == [i \in 1..n |-> i]

\* the points which take part: those whose group is known
TakesPart(v, n) == IF v[1] = "group" THEN {i \in 1..n : ~IsMiss(v[2][i])} ELSE 1..n
GroupsOf(v, n) == {{i \in TakesPart(v, n) : v[2][i] = v[2][j]} : j \in TakesPart(v, n)}
NFolds(v, n) == CASE v[1] = "folds" -> v[2] [] v[1] = "one" -> n [] v[1] = "group" -> Cardinality(GroupsOf(v, n)) [] OTHER -> 1
\* folds: sequence of sets held out, one after the other
FoldsOk(v, n, folds) ==
    LET part == TakesPart(v, n) sz(i) == Cardinality(folds[i]) IN
    /\ Len(folds) = NFolds(v, n)
    /\ CASE v[1] \in {"folds", "one"} ->
              /\ UNION {folds[i] : i \in 1..Len(folds)} = part
              /\ \A i, j \in 1..Len(folds) : i # j => folds[i] \cap folds[j] = {}
              /\ \A i, j \in 1..Len(folds) : sz(i) <= sz(j) + 1
         [] v[1] = "group" -> {folds[i] : i \in 1..Len(folds)} = GroupsOf(v, n)
         [] v[1] = "prop" -> sz(1) > 0 /\ 2 * sz(1) * v[3] < 2 * v[2] * n + 2 * v[3] /\ 2 * sz(1) * v[3] > 2 * v[2] * n - 2 * v[3]
         [] OTHER -> FALSE

\* a run: [kind, x, y, yn, given, table]; y is a sequence of rows
Train(run, as, idx) == [kind |-> run.kind, x |-> [i \in 1..Len(idx) |-> run.x[idx[i]]],
                        y |-> [i \in 1..Len(idx) |-> run.y[idx[i]]], yn |-> run.yn, args |-> as]
\* a "Tab" learner predicts what its table says for its arguments, for every point
InTable(tab, as) == tab[CHOOSE i \in 1..Len(tab) : tab[i][1] = as][2]
PredictRow(rk, run, as, tl, row) ==
    IF run.kind = "Tab" THEN InTable(run.table, as)
    ELSE Predict(rk, tl, [i \in 1..Len(ApplyParams(run.kind)) |-> <<ApplyParams(run.kind)[i], ArgVal(run.kind, as, ApplyParams(run.kind)[i])>>], row)[1]
PredictRows(rk, run, as, idx, rows) ==
    LET tl == Train(run, as, idx) IN [i \in 1..Len(rows) |-> PredictRow(rk, run, as, tl, rows[i])]

\* performance on the points te of a learner trained with all others that take part
RECURSIVE SetToSeq1(_)
SetToSeq1(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE c \in S : \A d \in S : c <= d IN <<m>> \o SetToSeq1(S \ {m})
FoldPreds(rk, run, as, part, te) ==
    PredictRows(rk, run, as, SetToSeq1(part \ te), [i \in 1..Cardinality(te) |-> run.x[SetToSeq1(te)[i]]])
Known1(run, te) == [i \in 1..Cardinality(te) |-> run.y[SetToSeq1(te)[i]][1]]
FoldPerf(rk, run, p, as, part, te) == Perform(p, Known1(run, te), FoldPreds(rk, run, as, part, te))
\* the performance on all points held out together
AllPerf(rk, run, p, as, part, folds) ==
    Perform(p, ConcatAll([i \in 1..Len(folds) |-> Known1(run, folds[i])]),
            ConcatAll([i \in 1..Len(folds) |-> FoldPreds(rk, run, as, part, folds[i])]))
DataPerf(rk, run, p, as, vx, vy) ==
    Perform(p, Column(vy, 1), PredictRows(rk, run, as, Full(Len(run.x)), vx))

\* --- the values of a Tune object ---------------------------------------------------
\* from start to end by change; [ok, values]
RECURSIVE Steps(_, _, _, _, _)
Steps(cur, end, change, mul, up) ==
    IF (up /\ RLt(end, cur)) \/ (~up /\ RLt(cur, end)) THEN <<>>
    ELSE <<cur>> \o Steps(IF mul THEN RMul(cur, change) ELSE RAdd(cur, change), end, change, mul, up)
TuneValues(start, end, change, type) ==
    LET up == RLt(start, end) mul == type = "multiply" IN
    IF type \notin {"add", "multiply"} THEN Refused
    ELSE IF start = end THEN [ok |-> "maybe", values |-> <<start>>]
    ELSE IF ~mul /\ (IF up THEN ~RLt(Zero, change) ELSE ~RLt(change, Zero)) THEN Refused
    ELSE IF mul /\ (~RLt(Zero, start) \/ ~RLt(Zero, end) \/ ~RLt(Zero, change)) THEN Refused
    ELSE IF mul /\ (IF up THEN ~RLt(One, change) ELSE ~RLt(change, One)) THEN Refused
    ELSE [ok |-> "yes", values |-> Steps(start, end, change, mul, up)]
=============================================================================
