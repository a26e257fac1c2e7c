------------------------------ MODULE LearnPlan ------------------------------
(* Every history of one learner up to MaxSteps: trained, then retrained,      *)
(* extended, applied, saved and loaded, with good and bad calls; and the laws *)
(* that relate what it predicts along them.                                   *)
EXTENDS Learn
CONSTANTS MaxSteps, Emit
VARIABLES tl, hist
vars == <<tl, hist>>

N(r) == [i \in 1..Len(r) |-> IntV(r[i])]
Tab(rows, fn) == [d |-> [i \in 1..Len(rows) |-> N(rows[i])], m |-> Len(rows[1]), pn |-> [i \in 1..Len(rows) |-> ""], fn |-> fn, ty |-> "List"]
X1 == Tab(<<<<1, 2>>, <<0, 3>>, <<5, 0>>>>, <<"f", "g">>)
Y1 == Tab(<<<<1>>, <<0>>, <<1>>>>, <<"lab">>)
X2 == Tab(<<<<4, 1>>, <<2, 2>>>>, <<"", "">>)
Y2 == Tab(<<<<2>>, <<1>>>>, <<"">>)
XB == Tab(<<<<4, 1>>>>, <<"", "">>)             \* not as many points as labels
Test == Tab(<<<<1, 1>>, <<3, 0>>>>, <<"", "">>)
As(s) == CASE s = "-" -> <<>> [] s = "a2" -> <<<<"a", 2>>>> [] s = "b3" -> <<<<"b", 3>>>> [] s = "c5" -> <<<<"c", 5>>>>
           [] s = "a3" -> <<<<"a", 3>>>> [] OTHER -> <<<<"zz", 1>>>>
Gone == [kind |-> "none"]

Calls == {<<"retrain", s>> : s \in {"-", "a3", "bad"}} \cup {<<"extend", s>> : s \in {"-", "a3", "bad"}}
         \cup {<<"retrainData", "-">>, <<"apply", "c5">>, <<"saveload", "-">>}
Do(c) ==
    CASE c[1] = "retrain" -> Retrained(tl, X2, <<"obj", Y2>>, As(c[2]), <<>>)
      [] c[1] = "retrainData" -> Retrained(tl, XB, <<"obj", Y2>>, <<>>, <<>>)
      [] c[1] = "extend" -> Extended(tl, X2, <<"obj", Y2>>, As(c[2]))
      [] OTHER -> [ok |-> "yes", tl |-> tl]
Init == hist = <<>> /\ tl = Gone
Start == /\ hist = <<>>
         /\ \E k \in {"Reg", "Need", "Cls"}, s \in {"a2", "c5"} :
              LET r == Trained(k, X1, <<"obj", Y1>>, As(s), <<>>) IN
              /\ r.ok = "yes"
              /\ tl' = r.tl /\ hist' = <<<<"train", k, s>>>>
Step == /\ hist # <<>> /\ Len(hist) < MaxSteps
        /\ \E c \in Calls : LET r == Do(c) IN
              /\ tl' = IF r.ok = "yes" THEN r.tl ELSE tl
              /\ hist' = Append(hist, c)
Next == Start \/ Step
Spec == Init /\ [][Next]_vars

Live == tl.kind # "none"
Pred(t) == Applied(<<>>, t, Test.d, Test.pn, <<>>, <<>>, "none")
\* the arguments in use always fit the learner, no name is there twice
Fit == Live => ArgsFit(tl.kind, tl.args) /\ Cardinality({tl.args[i][1] : i \in 1..Len(tl.args)}) = Len(tl.args)
\* training on what the learner was trained on gives the learner
Function == Live => LET r == Trained(tl.kind, [X1 EXCEPT !.d = tl.x, !.pn = [i \in 1..Len(tl.x) |-> ""]],
                                     <<"obj", [Y1 EXCEPT !.d = tl.y, !.fn = tl.yn]>>, tl.args, <<>>)
                    IN r.ok = "yes" /\ Pred(r.tl) = Pred(tl)
\* predicting a set is predicting each of its points
PointWise == Live => \A i \in 1..Len(Test.d) :
                 Applied(<<>>, tl, <<Test.d[i]>>, <<"">>, <<>>, <<>>, "none").d[1] = Pred(tl).d[i]
\* arguments for one call do not stay
OneCall == (Live /\ tl.kind # "Need") =>
             Applied(<<>>, tl, Test.d, Test.pn, As("c5"), <<>>, "none")
             = Applied(<<>>, [tl EXCEPT !.args = Updated(@, As("c5"))], Test.d, Test.pn, <<>>, <<>>, "none")
\* the predicted label has the best score
BestLabel == (Live /\ tl.kind = "Cls") =>
    \A i \in 1..Len(Test.d) :
        LET sc == Applied(<<>>, tl, Test.d, Test.pn, <<>>, <<>>, "allScores").d[i]
            b == Applied(<<>>, tl, Test.d, Test.pn, <<>>, <<>>, "bestScore").d[i]
        IN \A j \in 1..Len(sc) : RLe(sc[j], b[2])
\* refused calls change nothing; accepted ones keep arguments not given again
Kept == [][\A i \in 1..(IF tl.kind = "none" THEN 0 ELSE Len(tl.args)) :
             HasArg(tl'.args, tl.args[i][1]) /\ (ArgOf(tl'.args, tl.args[i][1]) # tl.args[i][2] => hist'[Len(hist')][2] = "a3")]_vars
Refuse == [][(tl.kind # "none" /\ (hist'[Len(hist')][2] = "bad" \/ hist'[Len(hist')][1] = "retrainData")) => tl' = tl]_vars
Extends == [][(tl.kind # "none" /\ hist'[Len(hist')][1] = "extend") => SubSeq(tl'.x, 1, Len(tl.x)) = tl.x]_vars
PlanOut == (Emit /\ Len(hist) = MaxSteps) => PrintT("PLAN|" \o ToString(hist))
=============================================================================
