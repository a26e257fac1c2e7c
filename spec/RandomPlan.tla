----------------------------- MODULE RandomPlan -----------------------------
(* Every history of seeding, controlled blocks and draws up to MaxSteps.    *)
EXTENDS Randomness
CONSTANTS MaxSteps, Emit
VARIABLES st, hist
vars == <<st, hist>>
Init == st = <<<<"?start">>>> /\ hist = <<>>
U == ToString(Len(hist))
Calls == {<<"setSeed", s>> : s \in {"1", "2", "bad"}} \cup {<<"enter", s>> : s \in {"1", "2"}}
         \cup {<<"draw", "py">>, <<"draw", "np">>, <<"draw", "op">>, <<"seeded", "1">>, <<"quiet", "">>, <<"exit", "">>, <<"abort", "">>}
Step(c) == /\ c[1] \in {"exit", "abort"} => Len(st) > 1
           /\ LET r == Do(st, c[1], c[2], c[2], U) IN st' = r.st
           /\ hist' = Append(hist, c)
Next == Len(hist) < MaxSteps /\ \E c \in Calls : Step(c)
Spec == Init /\ [][Next]_vars

\* only the innermost state is ever touched
Inner == [][\A i \in 1..(Len(st) - 1) : i <= Len(st') => (i = Len(st') \/ st'[i] = st[i]) /\ (i < Len(st) => st'[i] = st[i])]_vars
\* a block leaves no trace: after it the state is what it was before
RECURSIVE Opened(_, _, _)
Opened(h, i, d) == IF i = 0 THEN 0
                   ELSE IF h[i][1] \in {"exit", "abort"} THEN Opened(h, i - 1, d + 1)
                   ELSE IF h[i][1] = "enter" THEN (IF d = 1 THEN i ELSE Opened(h, i - 1, d - 1))
                   ELSE Opened(h, i - 1, d)
RECURSIVE Run(_, _, _)
Run(s, h, i) == IF i > Len(h) THEN s ELSE Run(Do(s, h[i][1], h[i][2], h[i][2], ToString(i - 1)).st, h, i + 1)
Restored == [][hist'[Len(hist')][1] \in {"exit", "abort"} =>
                 LET k == Opened(hist', Len(hist'), 0) IN st' = Run(<<<<"?start">>>>, SubSeq(hist', 1, k - 1), 1)]_vars
\* the same seed gives the same state, whatever happened before
Reproducible == [][(hist'[Len(hist')][1] = "setSeed" /\ Len(st) = 1 /\ hist'[Len(hist')][2] # "bad") => st' = <<<<hist'[Len(hist')][2]>>>>]_vars
PlanOut == (Emit /\ Len(hist) = MaxSteps) => PrintT("PLAN|" \o ToString(hist))
=============================================================================
