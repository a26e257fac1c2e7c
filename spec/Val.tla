-------------------------------- MODULE Val --------------------------------
(***************************************************************************)
(* Cell values of a nimble table.  Every cell is a tagged tuple whose tag  *)
(* comes first, so any two cells are comparable:                           *)
(*   <<"n", num, den>>  a number (booleans are 0/1), an exact rational in  *)
(*                      lowest terms with den > 0                          *)
(*   <<"s", text>>      a string                                           *)
(*   <<"x">>            a missing value (None or nan)                      *)
(*   <<"inf", sign>>    an infinity                                        *)
(*   <<"f", text>>      a float with no small exact rational               *)
(*   <<"o", text>>      anything else, by its printed form                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Miss == <<"x">>
IsNum(c)  == c[1] = "n"
IsStr(c)  == c[1] = "s"
IsMiss(c) == c[1] = "x"
IsInf(c)  == c[1] = "inf"

Abs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* num/den in lowest terms with a positive denominator (den # 0)
Rat(num, den) ==
    LET s == IF den < 0 THEN -1 ELSE 1
        g == Gcd(Abs(num), Abs(den))
    IN  <<"n", (s * num) \div g, (s * den) \div g>>
IntV(i) == <<"n", i, 1>>
Zero == IntV(0)
One  == IntV(1)
Bool(b) == IF b THEN One ELSE Zero
IsZero(c) == IsNum(c) /\ c[2] = 0
IsTrue(c) == c = One

RAdd(a, b) == Rat(a[2] * b[3] + b[2] * a[3], a[3] * b[3])
RNeg(a)    == <<"n", -a[2], a[3]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == Rat(a[2] * b[2], a[3] * b[3])
RDiv(a, b) == Rat(a[2] * b[3], a[3] * b[2])         \* b # 0
RLt(a, b)  == a[2] * b[3] < b[2] * a[3]
RLe(a, b)  == a[2] * b[3] <= b[2] * a[3]
RFloor(a)  == IntV(a[2] \div a[3])                   \* TLA+ \div is floor
RAbs(a)    == <<"n", Abs(a[2]), a[3]>>

\* integer square root of a perfect square, -1 when it is not one
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, k) == IF k * k = n THEN k ELSE IF k * k > n THEN -1 ELSE ISqrtFrom(n, k + 1)
ISqrt(n) == IF n < 0 THEN -1 ELSE ISqrtFrom(n, 0)

\* comparison as Python's on table cells: numbers by value, strings by the
\* rank table rk (all strings of the event in increasing order); a missing
\* value compares false to everything (so != is true).
RankOf(rk, s) == CHOOSE i \in 1..Len(rk) : rk[i] = s
CellLt(rk, a, b) ==
    IF IsNum(a) /\ IsNum(b) THEN RLt(a, b)
    ELSE IF IsStr(a) /\ IsStr(b) THEN RankOf(rk, a[2]) < RankOf(rk, b[2])
    ELSE IF IsInf(a) /\ (IsNum(b) \/ IsInf(b)) THEN a[2] = -1 /\ b # a
    ELSE IF IsNum(a) /\ IsInf(b) THEN b[2] = 1
    ELSE FALSE
CellEq(a, b) == ~IsMiss(a) /\ a = b
Cmp(rk, op, a, b) ==
    CASE op = "==" -> CellEq(a, b)
      [] op = "!=" -> ~CellEq(a, b)
      [] op = "<"  -> CellLt(rk, a, b)
      [] op = ">"  -> CellLt(rk, b, a)
      [] op = "<=" -> CellLt(rk, a, b) \/ CellEq(a, b)
      [] op = ">=" -> CellLt(rk, b, a) \/ CellEq(a, b)

\* folds over sequences
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE RAdd(Head(s), SumSeq(Tail(s)))
RECURSIVE SumInts(_)
SumInts(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumInts(Tail(s))
RECURSIVE ProdInts(_)
ProdInts(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdInts(Tail(s))
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))
Range1(s) == {s[i] : i \in 1..Len(s)}
Upto(n) == [i \in 1..n |-> i]
Contains1(s, x) == \E i \in 1..Len(s) : s[i] = x
IndexOf(s, x) == IF Contains1(s, x)
                 THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
                 ELSE 0
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET r == Dedup(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)]
                 IN IF Contains1(r, x) THEN r ELSE Append(r, x)
NoDup(s) == Cardinality(Range1(s)) = Len(s)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Pick(s, idx) == [i \in 1..Len(idx) |-> s[idx[i]]]
\* indices i of 1..n (in order) with P(i)
Where(n, P(_)) == SelectSeq(Upto(n), P)

\* Stable sort permutation of 1..n under a strict order on indices; rev is
\* Python's reverse=True (descending, equal elements keep their order).
StablePerm(n, L(_, _), rev) ==
    LET before(i, j) == IF rev THEN L(j, i) ELSE L(i, j)      \* i strictly before j
        rank == [i \in 1..n |-> 1 + Cardinality({j \in 1..n :
                    before(j, i) \/ (~before(i, j) /\ ~before(j, i) /\ j < i)})]
    IN [k \in 1..n |-> CHOOSE i \in 1..n : rank[i] = k]
=============================================================================
