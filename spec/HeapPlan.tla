------------------------------ MODULE HeapPlan ------------------------------
(***************************************************************************)
(* All short histories of several live objects: objects are derived from   *)
(* each other (views, copies, extracted parts, transposes, items) and       *)
(* edited in place.  TLC enumerates every history up to MaxSteps and checks *)
(* the heap invariants on it; with Print the histories are written out and  *)
(* replayed on the real types (harness/drivers/D06), where HeapTrace checks *)
(* every step.                                                              *)
(* Contents are abstract: a version number per cell of a 2x2 object.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxSteps, Emit

Cells == {<<i, j>> : i \in 1..2, j \in 1..2}
Whole == Cells
Row(i) == {c \in Cells : c[1] = i}
Col(j) == {c \in Cells : c[2] = j}

VARIABLES objs,   \* sequence of [val : Cells -> version, src, win, live]
          hist,   \* the plan: a sequence of <<kind, slot>>
          fresh   \* next version number
vars == <<objs, hist, fresh>>

Windows == [vall |-> Whole, vrow |-> Row(1), vcol |-> Col(2), vcell |-> {<<1, 2>>}]
Derive == {"copy", "deep", "convert", "sub", "T", "rawout", "arith"}
Edits == {"set", "rect", "elem", "vec", "iadd", "fill", "names", "permute"}
Takes == {"append", "binary", "replaceby"}     \* calls that take another live object as argument

Root(k) == IF objs[k].src = 0 THEN k ELSE objs[k].src
See(k) == [c \in objs[k].win |-> objs[Root(k)].val[c]]

Init == /\ objs = <<[val |-> [c \in Cells |-> 0], src |-> 0, win |-> Whole, live |-> TRUE]>>
        /\ hist = <<>> /\ fresh = 1
Live == {k \in DOMAIN objs : objs[k].live}
Log(x) == hist' = Append(hist, x)

MkView(k, v) ==
    /\ Windows[v] \subseteq objs[k].win
    /\ Log(<<v, k, 0>>)
    /\ objs' = Append(objs, [val |-> objs[k].val, src |-> Root(k), win |-> Windows[v], live |-> TRUE])
    /\ UNCHANGED fresh
MkObj(k, d) ==
    /\ objs[k].win = Whole
    /\ Log(<<d, k, 0>>)
    /\ objs' = Append(objs, [val |-> See(k), src |-> 0, win |-> Whole, live |-> TRUE])
    /\ UNCHANGED fresh
\* an in-place edit changes the receiver; through a view it is refused.  An
\* edit that reorders makes the views of the receiver meaningless.
Edit(k, e) ==
    /\ Log(<<e, k, 0>>)
    /\ fresh' = fresh + 1
    /\ IF objs[k].src # 0 THEN UNCHANGED objs
       ELSE objs' = [j \in DOMAIN objs |->
                IF j = k THEN [objs[j] EXCEPT !.val = [c \in Cells |-> IF c = <<1, 2>> \/ e \in {"iadd", "permute", "elem"} THEN fresh ELSE objs[k].val[c]]]
                ELSE IF objs[j].src = k /\ e = "permute" THEN [objs[j] EXCEPT !.live = FALSE] ELSE objs[j]]
\* the argument is only read
Take(k, j, e) ==
    /\ Log(<<e, k, j>>)
    /\ fresh' = fresh + 1
    /\ IF objs[k].src # 0 \/ e = "binary" THEN UNCHANGED objs
       ELSE objs' = [i \in DOMAIN objs |->
                IF i = k THEN [objs[i] EXCEPT !.val = [c \in Cells |-> fresh]]
                ELSE IF objs[i].src = k /\ e = "append" THEN [objs[i] EXCEPT !.live = FALSE] ELSE objs[i]]

Next == /\ Len(hist) < MaxSteps
        /\ \E k \in Live : \/ \E v \in DOMAIN Windows : MkView(k, v)
                           \/ \E d \in Derive : MkObj(k, d)
                           \/ \E e \in Edits : Edit(k, e)
                           \/ \E j \in Live, e \in Takes : Take(k, j, e)
Spec == Init /\ [][Next]_vars

\* --- what must hold in every history -----------------------------------------
TypeOK == \A k \in DOMAIN objs : objs[k].src \in {0} \cup {j \in DOMAIN objs : objs[j].src = 0}
\* a step changes what is seen in at most one root and its views
Sep == [][\A j, k \in DOMAIN objs :
            (objs[j].live /\ objs'[j].live /\ objs[k].live /\ objs'[k].live /\ Root(j) # Root(k))
               => (See(j) = See(j)' \/ See(k) = See(k)')]_vars
\* two views (or a view and its object) never disagree about a common cell
Agree == \A j, k \in DOMAIN objs : (objs[j].live /\ objs[k].live /\ Root(j) = Root(k))
               => \A c \in objs[j].win \cap objs[k].win : See(j)[c] = See(k)[c]
\* nothing is ever changed through a view
ReadOnly == [][(Len(hist') > Len(hist) /\ objs[hist'[Len(hist')][2]].src # 0)
               => \A k \in DOMAIN objs : objs[k].live => See(k)' = See(k)]_vars

PlanOut == (Emit /\ Len(hist) = MaxSteps /\ (MaxSteps < 3 \/ hist[MaxSteps][1] \in Edits \cup Takes)) => PrintT("PLAN|" \o ToString(hist))
=============================================================================
