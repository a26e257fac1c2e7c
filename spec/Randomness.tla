----------------------------- MODULE Randomness -----------------------------
(***************************************************************************)
(* nimble.random: one controlled source of randomness.                      *)
(* A generator state is a sequence: a root (a seed, or an unknown start)    *)
(* followed by everything drawn since.  stack[1] is the global state, every *)
(* alternateControl block pushes a state and restores the previous one.     *)
(* What is drawn is a function of the state: results are remembered in memo *)
(* and have to be the same whenever the state is the same.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Top(st) == st[Len(st)]
SetTop(st, g) == [st EXCEPT ![Len(st)] = g]
\* seeds are strings; "none" is an unpredictable state, made unique by u
Root(seed, u) == IF seed = "none" THEN <<"?" \o u>> ELSE <<seed>>

\* setSeed is refused inside alternateControl, and an unusable seed changes nothing
SetSeed(st, seed, u) ==
    IF Len(st) > 1 \/ seed = "bad" THEN [st |-> st, exc |-> TRUE]
    ELSE [st |-> SetTop(st, Root(seed, u)), exc |-> FALSE]
Enter(st, seed, u) == IF seed = "bad" THEN [st |-> st, exc |-> TRUE] ELSE [st |-> Append(st, Root(seed, u)), exc |-> FALSE]
Exit(st) == [st |-> SubSeq(st, 1, Len(st) - 1), exc |-> FALSE]
\* a random operation without a seed of its own consumes the state ...
Draw(st, what) == [st |-> SetTop(st, Append(Top(st), what)), exc |-> FALSE]
\* ... one with its own seed, and everything that is not random, does not
Quiet(st) == [st |-> st, exc |-> FALSE]

\* what determines the result of a call
Key(st, op, what, seed) == IF op = "seeded" THEN <<"seed", seed, what>> ELSE <<"state", Top(st), what>>

Do(st, op, what, seed, u) ==
    CASE op = "setSeed" -> SetSeed(st, seed, u)
      [] op = "enter" -> Enter(st, seed, u)
      [] op \in {"exit", "abort"} -> Exit(st)
      [] op = "draw" -> Draw(st, what)
      [] op \in {"seeded", "quiet", "noise"} -> Quiet(st)
=============================================================================
