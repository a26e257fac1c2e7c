----------------------------- MODULE BackendTrace -----------------------------
(* Trace validation of learning with an external package: every line is a call *)
(* of the user with the calls the package received and answered meanwhile.     *)
EXTENDS Backend, Json, IOUtils
ASSUME TLCSet(1, 0)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tls

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Res(v, t) == [v |-> v, tls |-> t]
Of(e, m) == SelectSeq(e.calls, LAMBDA c : c.meth = m)
\* the calls of a method with the data z (the package is also asked about other
\* data, to find the labels or the strategy)
On(e, m, z) == SelectSeq(e.calls, LAMBDA c : c.meth = m /\ c.x = z.d)

\* training: exactly one fit, or none when refused
DoFit(e, r) ==
    LET f == Of(e, "fit") s == e.a.slot IN
    IF r.ok = "any" THEN Res("ok", Drop(tls, s))
    ELSE IF r.ok = "no" THEN
        Res(IF e.exc = "" THEN "missing-exception" ELSE IF f # <<>> THEN "fitted-although-refused" ELSE "ok",
            IF e.op = "retrain" THEN tls ELSE Drop(tls, s))
    ELSE IF f = <<>> THEN Res(IF e.exc # "" THEN "unexpected-exception:" \o e.exc ELSE "not-fitted", Drop(tls, s))
    ELSE IF Len(f) > 1 THEN Res("fitted-twice", Drop(tls, s))
    ELSE LET v == FitV(r.fit, f[1], e.a.seed) IN
         IF v # "ok" THEN Res(v, Drop(tls, s))
         ELSE IF f[1].out[1] = "raised" THEN
            Res(IF e.exc = "" THEN "failed-fit-hidden" ELSE "ok", IF e.op = "retrain" THEN tls ELSE Drop(tls, s))
         ELSE IF e.exc # "" THEN Res("unexpected-exception:" \o e.exc, Drop(tls, s))
         ELSE Res("ok", Put(tls, s, r.tl @@ [fit |-> f[1], seed |-> e.a.seed]))

\* the answer of the method that applies the learner; an object without such a
\* method answers with what it holds after fitting
Answer(e, tl, z) == IF tl.L.meth \in {"fit_predict", "fit_transform"} THEN <<tl.fit.held>>
                    ELSE LET c == On(e, tl.L.meth, z) IN IF c = <<>> THEN <<>> ELSE <<c[Len(c)].out>>
CallV(e, tl, z, meth, names, new) ==
    LET c == On(e, meth, z) IN
    IF meth \in {"fit_predict", "fit_transform"} THEN "ok"
    ELSE IF c = <<>> THEN IF Of(e, meth) = <<>> THEN "not-applied" ELSE meth \o "-data"
    ELSE IF Set(c[Len(c)].extra) # Uses(tl, names, new) THEN meth \o "-arguments"
    ELSE "ok"

Named(tl) == tl.L.type \in {"classification", "regression"} /\ tl.labeled
NamesV(e, tl, z, want, t) ==
    IF t.d # want THEN "values"
    ELSE IF e.op # "scores" /\ Len(t.d) = Len(z.d) /\ t.pn # z.pn THEN "point-names"
    ELSE "ok"

Refuse(e, ms, z) == IF e.exc = "" THEN "missing-exception"
                 ELSE IF \E i \in 1..Len(e.calls) : e.calls[i].meth \in ms /\ e.calls[i].x = z.d THEN "applied-although-refused" ELSE "ok"

ApplyV(e, tl, z, new, mode, rk) ==
    LET L == tl.L w == Widths(tl, z) keys == NamesOf(new)
        pv == CallV(e, tl, z, L.meth, L.app, new)
        sv == CallV(e, tl, z, L.score, L.sapp, new)
        ls == Labels(rk, tl)
    IN
    IF w = "any" \/ Len(z.d) = 0 THEN "ok"
    ELSE IF w = "no" THEN Refuse(e, {L.meth}, z)
    ELSE IF mode # "none" /\ (L.type # "classification" \/ Len(tl.yn) # 1) THEN
        (IF L.type = "regression" THEN Refuse(e, {}, z) ELSE "ok")
    ELSE IF mode # "none" /\ L.score = "" THEN Refuse(e, {}, z)
    ELSE IF ~(\A i \in 1..Len(new) : ValOk(L, new[i][2])) THEN "ok"
    ELSE IF (mode # "allScores" /\ ~(keys \subseteq Range1(L.app))) \/ (mode # "none" /\ ~(keys \subseteq Range1(L.sapp))) THEN
        (IF e.exc = "" THEN "missing-exception" ELSE "ok")
    ELSE IF mode # "none" /\ Len(ls) < 2 THEN "ok"
    ELSE IF \E i \in 1..Len(e.calls) : e.calls[i].out[1] = "raised" THEN (IF e.exc = "" THEN "failure-hidden" ELSE "ok")
    ELSE IF e.exc # "" /\ (mode = "none" => Answer(e, tl, z) # <<>> /\ Usable(Answer(e, tl, z)[1])) THEN "unexpected-exception:" \o e.exc
    ELSE IF e.exc # "" THEN (IF Answer(e, tl, z) = <<>> THEN "unexpected-exception:" \o e.exc ELSE "ok")
    ELSE IF e.res[1] # "t" THEN "ret"
    ELSE IF mode = "none" THEN
        IF pv # "ok" THEN pv
        ELSE IF ~Usable(Answer(e, tl, z)[1]) THEN "ok"
        ELSE LET v == NamesV(e, tl, z, GridOf(Answer(e, tl, z)[1]), e.res[2]) IN
             IF v # "ok" THEN v
             ELSE IF Named(tl) /\ Len(tl.yn) = e.res[2].m /\ e.res[2].fn # tl.yn THEN "feature-names" ELSE "ok"
    ELSE IF sv # "ok" THEN sv
    ELSE LET all == LET c == On(e, L.score, z) IN AllScores(tl, ls, c[1], Ovo(tl)) IN
        IF mode = "allScores" THEN
            LET v == NamesV(e, tl, z, all, e.res[2]) IN
            IF v # "ok" THEN v
            ELSE IF e.op = "apply" /\ e.res[2].lab # ls THEN "score-names" ELSE "ok"
        ELSE IF pv # "ok" THEN pv
        ELSE LET g == GridOf(Answer(e, tl, z)[1])
                 want == [i \in 1..Len(g) |-> <<g[i][1], all[i][IndexOf(ls, g[i][1])]>>]
                 v == NamesV(e, tl, z, want, e.res[2])
             IN IF v # "ok" THEN v
                ELSE IF tl.yn # <<"">> /\ e.res[2].fn # <<tl.yn[1], "bestScore">> THEN "feature-names" ELSE "ok"

\* share of wrong predictions
TestV(e, tl, t, y, new, rk) ==
    LET s == Split(t, y) IN
    IF s.ok = "no" THEN Refuse(e, {tl.L.meth}, [d |-> t.d])
    ELSE LET L == tl.L z == [d |-> s.x, m |-> s.m] w == Widths(tl, z) IN
         IF w = "no" THEN Refuse(e, {L.meth}, z)
         ELSE IF w = "any" \/ L.type # "classification" \/ Len(tl.yn) # 1 \/ Len(s.yn) # 1 \/ y[1] = "none" THEN "ok"
         ELSE IF ~(NamesOf(new) \subseteq Range1(L.app)) THEN (IF e.exc = "" THEN "missing-exception" ELSE "ok")
         ELSE IF \E i \in 1..Len(e.calls) : e.calls[i].out[1] = "raised" THEN (IF e.exc = "" THEN "failure-hidden" ELSE "ok")
         ELSE IF e.exc # "" THEN "unexpected-exception:" \o e.exc
         ELSE LET v == CallV(e, tl, z, L.meth, L.app, new) g == GridOf(Answer(e, tl, z)[1]) IN
              IF v # "ok" THEN v
              ELSE IF e.res[1] # "v" THEN "ret"
              ELSE IF e.res[2] # RDiv(IntV(Cardinality({i \in 1..Len(g) : g[i][1] # s.y[i][1]})), IntV(Len(g))) THEN "performance"
              ELSE "ok"

DoTrainApply(e) ==
    LET r == BTrained(e.a.L, e.a.x, e.a.y, e.a.args)
        f == Of(e, "fit")
    IN IF r.ok = "any" THEN "ok"
       ELSE IF r.ok = "no" THEN (IF e.exc = "" THEN "missing-exception" ELSE IF f # <<>> THEN "fitted-although-refused" ELSE "ok")
       ELSE IF f = <<>> THEN (IF e.exc # "" /\ Widths(r.tl, e.a.z) # "yes" THEN "ok"
                              ELSE IF e.exc # "" THEN "unexpected-exception:" \o e.exc ELSE "not-fitted")
       ELSE LET v == FitV(r.fit, f[1], e.a.seed) IN
            IF v # "ok" THEN v
            ELSE IF f[1].out[1] = "raised" THEN (IF e.exc = "" THEN "failed-fit-hidden" ELSE "ok")
            ELSE ApplyV(e, r.tl @@ [fit |-> f[1]], e.a.z, <<>>, e.a.mode, e.rk)

AttrV(e, tl) ==
    IF e.exc # "" THEN "unexpected-exception:" \o e.exc
    ELSE IF \E i \in 1..Len(tl.fit.attrs) :
                tl.fit.attrs[i][1] \notin Keys(tl.g) /\ tl.fit.attrs[i] \notin Range1(e.res[2]) THEN "attributes"
    ELSE "ok"

\* what nimble says about the class: names and defaults of its parameters, its type
InfoV(e) ==
    LET L == e.a.L IN
    IF e.exc # "" THEN "unexpected-exception:" \o e.exc
    ELSE IF Range1(e.res[2]) \ {Seed} # Params(L) \ {Seed} THEN "parameter-names"
    ELSE IF {p \in Set(e.res[3]) : p[1] # Seed} # {p \in Over(Set(L.init), Set(L.dfit)) : p[1] # Seed} THEN "defaults"
    ELSE IF L.type # "" /\ e.res[4] # L.type THEN "learner-type"
    ELSE "ok"

Has(e) == e.a.slot \in DOMAIN tls
Act(e) ==
    CASE e.op = "bad" -> Res("unobservable:" \o e.exc, tls)
      [] e.op = "train" -> DoFit(e, BTrained(e.a.L, e.a.x, e.a.y, e.a.args))
      [] e.op = "retrain" -> IF ~Has(e) THEN Res("ok", tls) ELSE DoFit(e, BRetrained(tls[e.a.slot], e.a.x, e.a.y, e.a.args))
      [] e.op \in {"apply", "scores"} -> IF ~Has(e) THEN Res("ok", tls)
                                         ELSE Res(ApplyV(e, tls[e.a.slot], e.a.z, e.a.args, e.a.mode, e.rk), tls)
      [] e.op = "test" -> IF ~Has(e) THEN Res("ok", tls) ELSE Res(TestV(e, tls[e.a.slot], e.a.x, e.a.y, e.a.args, e.rk), tls)
      [] e.op = "trainApply" -> Res(DoTrainApply(e), tls)
      [] e.op = "attrs" -> IF ~Has(e) THEN Res("ok", tls) ELSE Res(AttrV(e, tls[e.a.slot]), tls)
      [] e.op = "info" -> Res(InfoV(e), tls)
      [] e.op = "saveload" -> IF ~Has(e) THEN Res("ok", Drop(tls, e.a.to))
                              ELSE IF e.exc # "" THEN Res("unexpected-exception:" \o e.exc, tls)
                              ELSE Res("ok", Put(tls, e.a.to, tls[e.a.slot]))
      [] OTHER -> Res("ok", tls)

Judge(e, r) ==
    IF r.v # "ok" THEN r.v
    ELSE IF \E i \in 1..Len(e.ins) : e.ins[i][1] # e.ins[i][2] THEN "input-changed"
    ELSE IF \E i \in 1..Len(e.obs) : e.obs[i][1] \in DOMAIN r.tls /\
              Set(e.obs[i][2]) # Set(r.tls[e.obs[i][1]].args) THEN "arguments"
    ELSE "ok"

Init == l = 1 /\ tls = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "start" THEN tls' = <<>>
           ELSE LET r == Act(e) v == Judge(e, r)
                IN /\ (IF v = "ok" THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o v))
                   /\ tls' = r.tls
Spec == Init /\ [][Next]_<<l, tls>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
