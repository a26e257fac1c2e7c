------------------------------ MODULE HeapTrace ------------------------------
(***************************************************************************)
(* Trace validation of scenarios with several live objects.  Every line is  *)
(* one call with the observed contents of every live object after it.      *)
(***************************************************************************)
EXTENDS Heap, Calls, Json, IOUtils
ASSUME TLCSet(1, 0)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, h

\* --- verdict on one line -----------------------------------------------------
\* a view whose source was renamed without it following (reported then)
Behind(g, k) == /\ k # 0 /\ g[k].src \in DOMAIN g
                /\ LET w == Window(g[g[k].src].t, g[k].w) IN w.pn # g[k].t.pn \/ w.fn # g[k].t.fn
Receiver(e, g) ==
    IF e.op = "bad" THEN "unobservable:" \o e.exc
    ELSE IF e.tgt # 0 /\ g[e.tgt].t # e.pre THEN "read-changed-object:" \o TDiff(g[e.tgt].t, e.pre)
    ELSE IF e.tgt # 0 /\ g[e.tgt].view /\ IsEdit(e)
         THEN IF e.pre # e.post THEN "edit-through-view:" \o TDiff(e.pre, e.post)
              ELSE IF e.exc = "" THEN "view-accepted-edit" ELSE "ok"
    ELSE IF e.same # 0 THEN "result-is-existing-object"   \* no call gives an object that was there before
    ELSE IF Behind(g, e.tgt) THEN "ok"
    ELSE V(e)

First(s, P(_)) == IF \E i \in DOMAIN s : P(s[i]) THEN s[CHOOSE i \in DOMAIN s : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j])] ELSE <<0, 0>>
OtherObjs(e, g, r) ==
    LET want(k) == Expected(g, k, e.tgt, e.pre, e.post)
        x == First(e.after, LAMBDA p : p[1] \in DOMAIN g /\ want(p[1]) # p[2])
        k == x[1]
    IN IF k = 0 THEN "ok"
       ELSE IF g[k].src = e.tgt /\ e.tgt # 0
            THEN (IF want(k).d # x[2].d \/ want(k).m # x[2].m THEN "view-stale-data" ELSE "view-stale-names")
       ELSE "other-object-changed:" \o TDiff(want(k), x[2])

Observed(e) == {e.after[i][1] : i \in DOMAIN e.after} \cup {e.tgt}
Missing(e, g) == IF e.op = "bad" THEN "ok"
                 ELSE IF (DOMAIN g \ Dropped(g, e)) \subseteq Observed(e) THEN "ok" ELSE "machinery-missing-object"

\* --- next heap: resynchronised with what was observed -------------------------
Obs(e, k) == IF k = e.tgt THEN e.post ELSE First(e.after, LAMBDA p : p[1] = k)[2]
Kept(e, g) == {k \in DOMAIN g : k \in Observed(e) \ {0}}
NewRec(e, g, n) ==
    [t |-> n[2], src |-> n[3], view |-> n[4],
     w |-> IF n[3] = 0 THEN [ps |-> 0, pe |-> 0, fs |-> 0, fe |-> 0]
           ELSE IF g[e.tgt].view THEN Compose(g[e.tgt].w, WindowOf(e.pre, e.a)) ELSE WindowOf(e.pre, e.a)]
NextHeap(e, g) ==
    LET new == {e.new[i][1] : i \in DOMAIN e.new} IN
    [k \in Kept(e, g) \cup new |->
        IF k \in new THEN NewRec(e, g, First(e.new, LAMBDA n : n[1] = k)) ELSE [g[k] EXCEPT !.t = Obs(e, k)]]

Empty == [k \in {} |-> 0]
Init == l = 1 /\ h = Empty
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l]
               g == IF e.first THEN Empty ELSE h
               r == Receiver(e, g)
               o == IF e.op = "bad" THEN "ok" ELSE OtherObjs(e, g, r)
               m == Missing(e, g)
           IN /\ (IF r = "ok" THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o r))
              /\ (IF o = "ok" THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o o))
              /\ (IF m = "ok" THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o m))
              /\ h' = NextHeap(e, g)
Spec == Init /\ [][Next]_<<l, h>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
