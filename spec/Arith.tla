------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Arithmetic and logic on whole objects: element by element on the        *)
(* operands' values, names reconciled, operands unchanged.                 *)
(***************************************************************************)
EXTENDS Elem

RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN One ELSE RMul(a, RPow(a, k - 1))
IsNeg(c) == IsNum(c) /\ c[2] < 0

\* one cell; RaiseV when the whole call must raise
BinCell(op, a, b) ==
    IF ~(IsNum(a) \/ IsMiss(a)) \/ ~(IsNum(b) \/ IsMiss(b)) THEN RaiseV
    ELSE IF op = "**" THEN
        IF IsZero(b) \/ a = One THEN One
        ELSE IF IsMiss(a) \/ IsMiss(b) THEN Miss
        ELSE IF b[2] >= 0 THEN RPow(a, b[2])
        ELSE IF IsZero(a) THEN RaiseV ELSE RDiv(One, RPow(a, -b[2]))
    ELSE IF op \in {"/", "//", "%"} /\ IsZero(b) THEN RaiseV
    ELSE IF IsMiss(a) \/ IsMiss(b) THEN Miss
    ELSE CASE op = "+" -> RAdd(a, b)
           [] op = "-" -> RSub(a, b)
           [] op = "*" -> RMul(a, b)
           [] op = "/" -> RDiv(a, b)
           [] op = "//" -> RFloor(RDiv(a, b))
           [] op = "%" -> RSub(a, RMul(b, RFloor(RDiv(a, b))))
IsBool(c) == c = Zero \/ c = One
LogCell(op, a, b) ==
    IF ~IsBool(a) \/ ~IsBool(b) THEN RaiseV
    ELSE CASE op = "&" -> Bool(IsTrue(a) /\ IsTrue(b))
           [] op = "|" -> Bool(IsTrue(a) \/ IsTrue(b))
           [] op = "^" -> Bool(IsTrue(a) # IsTrue(b))
Cell2(op, a, b) == IF op \in {"&", "|", "^"} THEN LogCell(op, a, b) ELSE BinCell(op, a, b)
HasRaise(d) == \E i \in 1..Len(d) : \E j \in 1..Len(d[i]) : d[i][j] = RaiseV
Map2(op, x, y) == [i \in 1..Len(x) |-> [j \in 1..Len(x[i]) |-> Cell2(op, x[i][j], y[i][j])]]

MergeN(a, b) == [i \in 1..Len(a) |-> IF a[i] # "" THEN a[i] ELSE b[i]]
Agree(a, b) == Unnamed(a) \/ Unnamed(b) \/ Consistent(a, b)
Disjoint(a, b) == ~\E i \in 1..Len(a) : a[i] # "" /\ Contains1(b, a[i])
\* the names of a combination of two equally shaped tables, or [ok |-> FALSE]
CombineNames(t, u, inplace) ==
    LET p == Agree(t.pn, u.pn) f == Agree(t.fn, u.fn)
        none == [ok |-> FALSE, pn |-> <<>>, fn |-> <<>>]
    IN IF ~p /\ ~f THEN none
       ELSE IF inplace /\ (~p \/ ~f) THEN none
       ELSE IF ~p THEN (IF Disjoint(t.pn, u.pn) THEN [ok |-> TRUE, pn |-> Anon(Len(t.pn)), fn |-> MergeN(t.fn, u.fn)] ELSE none)
       ELSE IF ~f THEN (IF Disjoint(t.fn, u.fn) THEN [ok |-> TRUE, pn |-> MergeN(t.pn, u.pn), fn |-> Anon(Len(t.fn))] ELSE none)
       ELSE [ok |-> TRUE, pn |-> MergeN(t.pn, u.pn), fn |-> MergeN(t.fn, u.fn)]

Give(t, r, inplace) == IF inplace THEN Outcome("yes", r, NoRet) ELSE Outcome("yes", t, <<"t", r>>)
BinScalar(t, op, c, rev, inplace) ==
    LET d == [i \in 1..NPts(t) |-> [j \in 1..t.m |-> IF rev THEN Cell2(op, c, t.d[i][j]) ELSE Cell2(op, t.d[i][j], c)]]
    IN IF HasRaise(d) THEN Err(t) ELSE Give(t, [t EXCEPT !.d = d], inplace)
BinTable(t, op, u, inplace) ==
    IF NPts(t) # NPts(u) \/ t.m # u.m THEN Err(t)
    ELSE LET d == Map2(op, t.d, u.d) n == CombineNames(t, u, inplace)
         IN IF HasRaise(d) \/ ~n.ok THEN Err(t)
            ELSE Give(t, [t EXCEPT !.d = d, !.pn = n.pn, !.fn = n.fn], inplace)
Unary(t, op) ==
    LET d == [i \in 1..NPts(t) |-> [j \in 1..t.m |-> LET c == t.d[i][j] IN
                CASE op = "pos" -> c
                  [] op = "neg" -> BinCell("*", c, IntV(-1))
                  [] op = "abs" -> IF IsMiss(c) THEN Miss ELSE IF IsNum(c) THEN RAbs(c) ELSE RaiseV
                  [] op = "inv" -> IF IsBool(c) THEN Bool(c = Zero) ELSE RaiseV]]
    IN IF HasRaise(d) THEN Err(t) ELSE Outcome("yes", t, <<"t", [t EXCEPT !.d = d]>>)

Dot(x, y) == SumSeq([k \in 1..Len(x) |-> RMul(x[k], y[k])])
Col(t, j) == [i \in 1..NPts(t) |-> t.d[i][j]]
MulData(t, u) == [i \in 1..NPts(t) |-> [j \in 1..u.m |-> Dot(t.d[i], Col(u, j))]]
NumTable(t) == \A i \in 1..NPts(t) : AllNum(t.d[i])
\* got: type of the observed result (the documentation leaves it open)
MatMul(t, u, got, inplace) ==
    LET ty == IF got \in {t.ty, u.ty} THEN got ELSE t.ty
    IN IF t.m # NPts(u) \/ ~NumTable(t) \/ ~NumTable(u) \/ ~Agree(t.fn, u.pn) THEN Err(t)
       ELSE Give(t, [d |-> MulData(t, u), m |-> u.m, pn |-> t.pn, fn |-> u.fn, ty |-> IF inplace THEN t.ty ELSE ty], inplace)
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]]
RECURSIVE PowData(_, _)
PowData(t, k) == IF k = 0 THEN Ident(t.m) ELSE IF k = 1 THEN t.d
                 ELSE MulData([t EXCEPT !.d = PowData(t, k - 1)], t)
MatPow(t, k) ==
    IF NPts(t) # t.m THEN Err(t)
    ELSE Outcome("yes", t, <<"t", [t EXCEPT !.d = PowData(t, k)]>>)

\* --- stretch ---------------------------------------------------------------
\* s: the stretched one-dimensional table; o: the other operand, itself
\* stretched when os; left: s is the left operand
Expand(nm, n) == [i \in 1..n |-> nm \o "_" \o ToString(i)]
StretchNames(sn, on, os, n) ==
    IF sn = on THEN sn
    ELSE IF Unnamed(sn) /\ Unnamed(on) THEN Anon(n)
    ELSE IF Unnamed(sn) THEN (IF os /\ Len(on) # n THEN Expand(on[1], n) ELSE on)
    ELSE IF Unnamed(on) THEN (IF Len(sn) > 1 \/ n = 1 THEN sn ELSE Expand(sn[1], n))
    ELSE IF Len(sn) = Len(on) THEN MergeN(sn, on)
    ELSE Anon(n)
Max2(a, b) == IF a > b THEN a ELSE b
Stretch(s, o, os, op, left) ==
    LET n == Max2(NPts(s), NPts(o)) m == Max2(s.m, o.m)
        one(t) == NPts(t) = 1 \/ t.m = 1
        fits == IF os THEN one(o) /\ ((NPts(s) = 1 /\ o.m = 1) \/ (s.m = 1 /\ NPts(o) = 1))
                ELSE IF NPts(s) = 1 /\ s.m = 1 THEN one(o)
                ELSE IF NPts(s) = 1 THEN s.m = o.m
                ELSE NPts(s) = NPts(o)
        \* the axis along which the operands are matched by name
        byPts == IF NPts(s) = 1 /\ s.m = 1 THEN o.m > 1 ELSE NPts(s) # 1
        agree == os \/ (IF byPts THEN Agree(s.pn, o.pn) ELSE Agree(s.fn, o.fn))
        at(t, i, j) == t.d[IF NPts(t) = 1 THEN 1 ELSE i][IF t.m = 1 THEN 1 ELSE j]
        d == [i \in 1..n |-> [j \in 1..m |->
                IF left THEN Cell2(op, at(s, i, j), at(o, i, j)) ELSE Cell2(op, at(o, i, j), at(s, i, j))]]
        named == op \notin {"&", "|", "^"}
        pn == IF named THEN StretchNames(s.pn, o.pn, os, n) ELSE Anon(n)
        fn == IF named THEN StretchNames(s.fn, o.fn, os, m) ELSE Anon(m)
    IN IF ~one(s) \/ ~fits \/ ~agree THEN Err(s)
       ELSE IF HasRaise(d) THEN Err(s)
       ELSE Outcome("yes", s, <<"t", [d |-> d, m |-> m, pn |-> pn, fn |-> fn, ty |-> IF left THEN s.ty ELSE o.ty]>>)
=============================================================================
