----------------------------- MODULE RandomTrace -----------------------------
(* Trace validation of histories of random operations: equal states give    *)
(* equal results, and results move on when the state does.                  *)
EXTENDS Randomness, Json, IOUtils
ASSUME TLCSet(1, 0)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, memo

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Known(k) == k[1] = "seed" \/ k[2][1][1] # "?"
\* keys whose results cannot be the same by chance
Apart(k1, k2) == /\ k1[1] = k2[1] /\ k1[3] = k2[3] /\ k1 # k2
                 /\ IF k1[1] = "seed" THEN TRUE
                    ELSE k1[2][1] # k2[2][1] \/ k2[2] = Append(k1[2], k1[3])

Judge(e, r, k) ==
    IF e.exc # "" /\ ~r.exc THEN "unexpected-exception:" \o e.exc
    ELSE IF e.exc = "" /\ r.exc THEN "missing-exception"
    ELSE IF e.op \notin {"draw", "seeded"} THEN "ok"
    ELSE IF k \in DOMAIN memo /\ memo[k] # e.res THEN "same-state-different-result"
    ELSE IF e.apart /\ \E k2 \in DOMAIN memo : (Apart(k, k2) \/ Apart(k2, k)) /\ memo[k2] = e.res THEN "result-does-not-depend-on-state"
    ELSE "ok"

Init == l = 1 /\ st = <<<<"?0">>>> /\ memo = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l]
               u == ToString(l)
           IN IF e.op = "bad" THEN PrintT("BAD|" \o u \o "|" \o e.exc) /\ UNCHANGED <<st, memo>>
              ELSE IF e.op = "start" THEN st' = <<<<"?" \o u>>>> /\ memo' = memo
              ELSE LET r == Do(st, e.op, e.what, e.seed, u)
                       k == Key(st, e.op, e.what, e.seed)
                       v == Judge(e, r, k)
                   IN /\ (IF v = "ok" THEN TRUE ELSE PrintT("BAD|" \o u \o "|" \o v))
                      /\ st' = r.st
                      /\ memo' = IF e.op \in {"draw", "seeded"} /\ k \notin DOMAIN memo THEN Put(memo, k, e.res) ELSE memo
Spec == Init /\ [][Next]_<<l, st, memo>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
