------------------------------ MODULE LearnTrace ------------------------------
(* Trace validation of histories of learning calls against Learn: tls holds  *)
(* the trained learners by slot; a slot that leaves the specified behaviour   *)
(* (an outcome left open) is dropped and nothing more is asked of it.         *)
EXTENDS Learn, Json, IOUtils
ASSUME TLCSet(1, 0)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tls

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Res(v, t) == [v |-> v, tls |-> t]
\* yes/no against the exception
Exc(ok, exc) == IF ok = "yes" /\ exc # "" THEN "unexpected-exception:" \o exc
                ELSE IF ok = "no" /\ exc = "" THEN "missing-exception" ELSE "ok"

\* a table against an outcome of Applied
TableV(rk, r, t) ==
    IF t[1] # "t" THEN "ret"
    ELSE IF t[2].d # r.d THEN "values"
    ELSE IF t[2].pn # r.pn THEN "point-names"
    ELSE IF r.fn[1] = "names" /\ t[2].fn # r.fn[2] THEN "feature-names"
    ELSE IF r.fn[1] = "labels" /\ t[2].lab # r.fn[2] THEN "score-names"
    ELSE "ok"
AppliedV(e, r) == IF r.ok = "any" THEN "ok"
                  ELSE IF Exc(r.ok, e.exc) # "ok" \/ r.ok = "no" THEN Exc(r.ok, e.exc)
                  ELSE TableV(e.rk, r, e.res)
PerfV(e, p, r) == IF r.ok = "any" THEN "ok"
               ELSE IF Exc(r.ok, e.exc) # "ok" \/ r.ok = "no" THEN Exc(r.ok, e.exc)
               ELSE IF e.res[1] # "v" THEN "ret"
               ELSE IF (IF p = "rmse" THEN e.res[3] ELSE e.res[2]) # r.v THEN "performance"
               ELSE "ok"

Learned(slot, r, e) ==         \* a learner placed in a slot
    IF r.ok = "yes" /\ e.exc = "" THEN Put(tls, slot, r.tl @@ [seed |-> e.a.seed])
    ELSE Drop(tls, slot)

DoTrain(e) == LET r == Trained(e.a.kind, e.a.x, e.a.y, e.a.args, e.a.kw)
              IN Res(Exc(r.ok, e.exc), Learned(e.a.slot, r, e))

Change(e, r) == \* retrain and extend
    LET s == e.a.slot IN
    IF r.ok = "any" THEN Res("ok", Drop(tls, s))
    ELSE Res(Exc(r.ok, e.exc),
             IF e.exc # "" THEN tls
             ELSE IF r.ok = "yes" THEN Put(tls, s, r.tl @@ [seed |-> IF e.op = "extend" THEN tls[s].seed ELSE e.a.seed])
             ELSE Drop(tls, s))

TestRows(z, x, y) == IF z[1] = "obj" THEN [d |-> z[2].d, pn |-> z[2].pn]
                 ELSE LET s == Split(x, IF y[1] = "id" THEN y ELSE <<"none">>) IN [d |-> s.x, pn |-> s.xpn]
DoTrainApply(e) ==
    LET r == Trained(e.a.kind, e.a.x, e.a.y, e.a.args, e.a.kw) IN
    IF r.ok # "yes" THEN Res(Exc(r.ok, e.exc), tls)
    ELSE LET z == TestRows(e.a.z, e.a.x, e.a.y) IN
         Res(AppliedV(e, Applied(e.rk, r.tl, z.d, z.pn, <<>>, <<>>, e.a.mode)), tls)

DoTrainTest(e, z, zy) ==
    LET r == Trained(e.a.kind, e.a.x, e.a.y, e.a.args, e.a.kw) IN
    IF r.ok # "yes" THEN Res(Exc(r.ok, e.exc), tls)
    ELSE Res(PerfV(e, e.a.perf, Tested(e.rk, r.tl, z, zy, <<>>, <<>>, e.a.perf)), tls)

NormV(t, x, r) == IF t.d # r.d THEN "values"
                  ELSE IF t.pn # x.pn THEN "point-names"
                  ELSE IF t.fn # x.fn THEN "feature-names"
                  ELSE IF t.ty # x.ty THEN "type"
                  ELSE "ok"
DoNormalize(e) ==
    LET r == Trained(e.a.kind, e.a.x, e.a.y, e.a.args, e.a.kw)
        p(z) == Applied(e.rk, r.tl, z.d, z.pn, <<>>, <<>>, "none") IN
    IF r.ok # "yes" THEN Res(Exc(r.ok, e.exc), tls)
    ELSE LET a == p(e.a.x) b == IF e.a.z[1] = "obj" THEN p(e.a.z[2]) ELSE a IN
         IF a.ok # "yes" \/ b.ok # "yes" THEN Res(Exc(b.ok, e.exc), tls)
         ELSE IF e.exc # "" THEN Res("unexpected-exception:" \o e.exc, tls)
         ELSE IF e.a.z[1] = "none" THEN Res(IF e.res[1] # "t" THEN "ret" ELSE NormV(e.res[2], e.a.x, a), tls)
         ELSE Res(IF e.res[1] # "tt" THEN "ret"
                  ELSE IF NormV(e.res[2], e.a.x, a) # "ok" THEN NormV(e.res[2], e.a.x, a)
                  ELSE NormV(e.res[3], e.a.z[2], b), tls)

Known(e) == e.a.slot \in DOMAIN tls
Act(e) ==
    CASE e.op = "bad" -> Res("unobservable:" \o e.exc, tls)
      [] e.op = "train" -> DoTrain(e)
      [] e.op \in {"apply", "scores"} ->
            IF ~Known(e) THEN Res("ok", tls)
            ELSE LET tl == tls[e.a.slot] IN
                 IF e.op = "apply" THEN Res(AppliedV(e, Applied(e.rk, tl, e.a.x.d, e.a.x.pn, e.a.args, e.a.kw, e.a.mode)), tls)
                 ELSE LET r == Applied(e.rk, tl, e.a.x.d, e.a.x.pn, e.a.args, e.a.kw, "allScores") IN
                      Res(IF r.ok = "yes" /\ e.exc = "" THEN (IF e.res[2].d = r.d THEN "ok" ELSE "scores")
                          ELSE IF r.ok = "any" THEN "ok" ELSE Exc(r.ok, e.exc), tls)
      [] e.op = "test" -> IF ~Known(e) THEN Res("ok", tls)
                          ELSE Res(PerfV(e, e.a.perf, Tested(e.rk, tls[e.a.slot], e.a.x, e.a.y, e.a.args, e.a.kw, e.a.perf)), tls)
      [] e.op = "retrain" -> IF ~Known(e) THEN Res("ok", tls)
                             ELSE Change(e, Retrained(tls[e.a.slot], e.a.x, e.a.y, e.a.args, e.a.kw))
      [] e.op = "extend" -> IF ~Known(e) THEN Res("ok", tls)
                            ELSE Change(e, Extended(tls[e.a.slot], e.a.x, e.a.y, e.a.args))
      [] e.op = "saveload" -> IF ~Known(e) THEN Res("ok", Drop(tls, e.a.to))
                              ELSE IF e.exc # "" THEN Res("unexpected-exception:" \o e.exc, Drop(tls, e.a.to))
                              ELSE Res("ok", Put(tls, e.a.to, tls[e.a.slot]))
      [] e.op = "trainApply" -> DoTrainApply(e)
      [] e.op = "onTraining" -> DoTrainTest(e, e.a.x, e.a.y)
      [] e.op = "trainTest" -> DoTrainTest(e, IF e.a.z[1] = "none" THEN e.a.x ELSE e.a.z[2],
                                           IF e.a.zy[1] = "none" THEN e.a.y ELSE e.a.zy)
      [] e.op = "normalize" -> DoNormalize(e)
      [] OTHER -> Res("ok", tls)

Type(k) == CASE k = "Cls" -> "classification" [] k = "Trans" -> "transformation" [] OTHER -> "regression"
\* what every learner says about itself after the call
ObsV(t, o) == IF o[1] \notin DOMAIN t THEN "ok"
              ELSE LET tl == t[o[1]] IN
                   IF ~SameArgs(o[2], tl.args) THEN "arguments"
                   ELSE IF o[3] # Type(tl.kind) THEN "learner-type"
                   ELSE IF tl.seed # -1 /\ o[4] # tl.seed THEN "random-seed"
                   ELSE IF o[5] # "Probe" \o tl.kind THEN "learner-name"
                   ELSE "ok"
Judge(e, r) ==
    IF r.v # "ok" THEN r.v
    ELSE IF \E i \in 1..Len(e.ins) : e.ins[i][1] # e.ins[i][2] THEN "input-changed"
    ELSE IF \E i \in 1..Len(e.dicts) : Range1(e.dicts[i][1]) # Range1(e.dicts[i][2]) THEN "mapping-changed"
    ELSE IF \E i \in 1..Len(e.obs) : ObsV(r.tls, e.obs[i]) # "ok"
         THEN ObsV(r.tls, e.obs[CHOOSE i \in 1..Len(e.obs) : ObsV(r.tls, e.obs[i]) # "ok"])
    ELSE "ok"

Init == l = 1 /\ tls = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "start" THEN tls' = <<>>
           ELSE LET r == Act(e) v == Judge(e, r)
                IN /\ (IF v = "ok" THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o v))
                   /\ tls' = r.tls
Spec == Init /\ [][Next]_<<l, tls>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
