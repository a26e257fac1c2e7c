------------------------------ MODULE TunePlan ------------------------------
(* Selection on every table of performances (up to Top) of a grid of two      *)
(* arguments: the laws of the ways to select, and runs for the driver.         *)
EXTENDS Tune
CONSTANTS Top, MaxLoops, Emit
VARIABLES tab, sel

Given == <<<<"b", <<3, 1>>>>, <<"a", <<5, -1, 2>>>>>>
Sets == ArgSets(Given)
Seqs == Product(Given)
Orders == {<<"a", "b">>, <<"b", "a">>}
Init == tab = <<>> /\ sel = <<>>
Fill == /\ Len(tab) < Len(Seqs)
        /\ \E v \in 0..Top : tab' = Append(tab, v)
        /\ UNCHANGED sel
Pick1 == /\ Len(tab) = Len(Seqs) /\ sel = <<>>
         /\ \E max \in BOOLEAN :
              sel' \in {<<"brute", max>>} \cup {<<"consec", max, o, n>> : o \in Orders, n \in 1..MaxLoops}
                       \cup {<<"iter", max, n>> : n \in {1, 2, 9}}
         /\ UNCHANGED tab
Next == Fill \/ Pick1
Spec == Init /\ [][Next]_<<tab, sel>>

P == TLCEval([s \in Sets |-> IntV(tab[CHOOSE i \in 1..Len(Seqs) : Seqs[i] = s])])
Never(v) == FALSE
Result(s) == CASE s[1] = "brute" -> [open |-> FALSE, seq |-> Seqs]
               [] s[1] = "consec" -> [open |-> FALSE, seq |-> Consecutive(Given, s[3], s[4], P, s[2])]
               [] OTHER -> Iterative(Given, s[3], Never, P, s[2])
Ready == sel # <<>>
Worse(a, b) == Better(sel[2], P[b], P[a])        \* a is worse than b
\* only argument sets of the grid, none twice
Within == Ready => LET r == Result(sel) IN Range1(r.seq) \subseteq Sets /\ NoRepeat(r.seq)
\* every set is at most as good as the best one of brute force, which tries them all
Optimal == (Ready /\ sel[1] = "brute") =>
              Range1(Seqs) = Sets /\ \A s \in Sets : ~Worse(BestOf(Seqs, P, sel[2]), s)
\* more loops only add; after enough of them no argument alone can be improved
Longer == (Ready /\ sel[1] = "consec") =>
             LET s1 == Result(sel).seq s2 == Consecutive(Given, sel[3], sel[4] + 1, P, sel[2]) IN
             /\ s1[1] = FirstOf(Given)
             /\ SubSeq(s2, 1, Len(s1)) = s1
             /\ (s1 = s2 => LET b == BestOf(s1, P, sel[2]) IN
                            \A i \in 1..Len(Given), j \in 1..3 :
                               j <= Len(Given[i][2]) => ~Worse(b, SetArg(b, Given[i][1], Given[i][2][j])))
\* the iterative search improves at each step
Climbs == (Ready /\ sel[1] = "iter") =>
             LET s == Result(sel).seq IN Len(s) <= sel[3] /\ \A i \in 1..(Len(s) - 1) : Worse(s[i], s[i + 1])
\* the report is the sequence ordered, best first
Ordered == Ready => LET q == Result(sel).seq s == Sorted(q, P, sel[2]) IN
             /\ Len(s) = Len(q) /\ Range1(s) = Range1(q) /\ s[1] = BestOf(q, P, sel[2])
             /\ \A i \in 1..(Len(s) - 1) : ~Worse(s[i], s[i + 1])
PlanOut == (Emit /\ Ready) => PrintT("PLAN|" \o ToString(<<tab, sel>>))
=============================================================================
