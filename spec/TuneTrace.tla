----------------------------- MODULE TuneTrace -----------------------------
(* Trace validation of tuning runs: what a probe learner was trained with    *)
(* and applied to, the results reported and the learner returned.            *)
EXTENDS Tune, Json, IOUtils
ASSUME TLCSet(1, 0)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Exc(ok, exc) == IF ok = "yes" /\ exc # "" THEN "unexpected-exception:" \o exc
                ELSE IF ok = "no" /\ exc = "" THEN "missing-exception" ELSE "ok"

\* [open, seq]: the argument sets validated
Chosen(e, P) ==
    LET max == MaxBest(e.perf) s == e.sel IN
    CASE s[1] = "brute" -> [open |-> FALSE, seq |-> Product(e.given)]
      [] s[1] = "consec" -> [open |-> FALSE, seq |-> Consecutive(e.given, s[2], s[3], P, max)]
      [] s[1] = "iter" -> Iterative(e.given, s[2],
                                    LAMBDA v : s[3][1] = "n" /\ (v = s[3] \/ Better(max, v, s[3])), P, max)

SamePairs(a, b) == Len(a) = Len(b) /\ Range1(a) = Range1(b)
\* what the tuning object reports
ReportV(e, seq, P, deep) ==
    LET max == MaxBest(e.perf) srt == Sorted(seq, P, max) r == e.rep IN
    IF r = <<>> THEN "ok"
    ELSE IF r.best # P[srt[1]] THEN "best-result"
    ELSE IF ~SamePairs(r.bestargs, srt[1]) THEN "best-arguments"
    ELSE IF r.results # [i \in 1..Len(srt) |-> P[srt[i]]] THEN "all-results"
    ELSE IF Len(r.args) # Len(srt) \/ \E i \in 1..Len(srt) : ~SamePairs(r.args[i], srt[i]) THEN "all-arguments"
    ELSE IF deep # <<>> /\ r.deep # [i \in 1..Len(srt) |-> deep[CHOOSE j \in 1..Len(seq) : seq[j] = srt[i]]] THEN "deep-results"
    ELSE IF deep = <<>> /\ r.deep # <<>> THEN "deep-results"
    ELSE "ok"
\* the learner returned: trained with all points and the best arguments
FinalV(e, best) ==
    IF e.fin[1] = "none" THEN "ok"
    ELSE LET pr == PredictRows(e.rk, e, best, Full(Len(e.x)), e.zx) IN
         IF e.fin[1] = "p" THEN (IF e.fin[2] = [i \in 1..Len(pr) |-> <<pr[i]>>] THEN "ok" ELSE "final-learner")
         ELSE IF e.fin[2] = Perform(e.perf, Column(e.zy, 1), pr) THEN "ok" ELSE "final-performance"
FinalArgsV(e, best) == IF e.targs = <<>> \/ SamePairs(e.targs, best) THEN "ok" ELSE "learner-arguments"

First1(vs) == IF \A i \in 1..Len(vs) : vs[i] = "ok" THEN "ok"
              ELSE vs[CHOOSE i \in 1..Len(vs) : vs[i] # "ok" /\ \A j \in 1..(i - 1) : vs[j] = "ok"]

\* cross validation and holding out a proportion: calls are train, apply, train, apply, ...
HeldOut(e) ==
    LET n == Len(e.x) v == e.val part == TakesPart(v, n) F == NFolds(v, n)
        ts == SelectSeq(e.calls, LAMBDA c : c[1] = "t")
        aps == SelectSeq(e.calls, LAMBDA c : c[1] = "a")
        bad == \E i \in 1..Len(e.calls) : ~e.calls[i][3] \/ Contains1(e.calls[i][2], 0) \/ ~NoRepeat(e.calls[i][2])
    IN IF bad THEN "unknown-or-mixed-points"
       ELSE IF Len(aps) < F \/ Len(ts) # Len(aps) + (IF e.extra THEN 1 ELSE 0) \/ Len(aps) % F # 0 THEN "number-of-calls"
       ELSE LET obs == [i \in 1..Len(aps) |-> [tr |-> Range1(ts[i][2]), te |-> Range1(aps[i][2])]]
                folds == [i \in 1..F |-> obs[i].te]
                blocks == Split2(obs, F)
            IN IF ~FoldsOk(v, n, folds) THEN "folds"
               ELSE IF \E i \in 1..Len(obs) : obs[i].tr # part \ obs[i].te THEN "trained-with-other-points"
               ELSE IF \E b \in 1..Len(blocks) : {blocks[b][i].te : i \in 1..F} # {folds[i] : i \in 1..F} THEN "folds-differ"
               ELSE IF e.extra /\ Range1(ts[Len(ts)][2]) # 1..n THEN "final-training"
               ELSE LET P == TLCEval([as \in ArgSets(e.given) |-> AllPerf(e.rk, e, e.perf, as, part, folds)])
                        c == TLCEval(Chosen(e, P)) seq == c.seq
                    IN IF c.open THEN "ok"
                       ELSE IF Len(blocks) # Len(seq) THEN "argument-sets-tried"
                       ELSE LET deep == IF v[1] = "prop" THEN <<>>
                                        ELSE [b \in 1..Len(blocks) |-> [i \in 1..F |->
                                                FoldPerf(e.rk, e, e.perf, seq[b], part, blocks[b][i].te)]]
                                best == BestOf(seq, P, MaxBest(e.perf))
                            IN First1(<<ReportV(e, seq, P, deep), FinalV(e, best), FinalArgsV(e, best)>>)

WithData(e) ==
    LET P == TLCEval([as \in ArgSets(e.given) |-> DataPerf(e.rk, e, e.perf, as, e.val[2], e.val[3])])
        c == TLCEval(Chosen(e, P))
        bad == \E i \in 1..Len(e.calls) : e.calls[i][1] = "t" /\ (~e.calls[i][3] \/ ~NoRepeat(e.calls[i][2])
                                                                 \/ Range1(e.calls[i][2]) # 1..Len(e.x))
    IN IF bad THEN "trained-with-other-points"
       ELSE IF c.open THEN "ok"
       ELSE LET best == BestOf(c.seq, P, MaxBest(e.perf))
            IN First1(<<ReportV(e, c.seq, P, <<>>), FinalV(e, best), FinalArgsV(e, best)>>)

\* whether the call can be done at all
Possible(e) ==
    LET n == Len(e.x) v == e.val IN
    IF e.bad # "" THEN "no"
    ELSE CASE v[1] = "folds" -> IF v[2] < 1 \/ v[2] > n THEN "no" ELSE IF v[2] = 1 THEN "any" ELSE "yes"
           [] v[1] = "one" -> IF n < 2 THEN "any" ELSE "yes"
           [] v[1] = "group" -> IF Cardinality(GroupsOf(v, n)) < 2 THEN "any" ELSE "yes"
           [] v[1] = "prop" -> IF v[2] <= 0 \/ v[2] >= v[3] THEN "no"
                               ELSE IF v[2] * n < v[3] \/ v[2] * n >= v[3] * (n - 1) THEN "any" ELSE "yes"
           [] OTHER -> "yes"

TuneV(e) ==
    LET ok == Possible(e) IN
    IF ok = "any" THEN "ok"
    ELSE IF Exc(ok, e.exc) # "ok" \/ ok = "no" THEN Exc(ok, e.exc)
    ELSE IF e.val[1] = "data" THEN WithData(e) ELSE HeldOut(e)

ValuesV(e) ==
    LET r == IF e.a[1] = "list" THEN [ok |-> "yes", values |-> e.a[2]]
             ELSE TuneValues(e.a[2], e.a[3], e.a[4], e.a[5]) IN
    IF r.ok = "maybe" THEN (IF e.exc # "" \/ e.values = r.values THEN "ok" ELSE "tune-values")
    ELSE IF Exc(r.ok, e.exc) # "ok" \/ r.ok = "no" THEN Exc(r.ok, e.exc)
    ELSE IF e.values # r.values THEN "tune-values" ELSE "ok"

V(e) == CASE e.op = "tune" ->
              IF \E i \in 1..Len(e.ins) : e.ins[i][1] # e.ins[i][2] THEN "input-changed"
              ELSE IF e.kept # "" THEN "earlier-tuning-changed"
              ELSE TuneV(e)
          [] e.op = "values" -> ValuesV(e)
          [] OTHER -> "unobservable"

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET v == V(Trace[l]) IN
           IF v = "ok" THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o v)
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
