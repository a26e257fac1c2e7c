-------------------------------- MODULE Show --------------------------------
(***************************************************************************)
(* What toString, show, str and repr print.  The text is observed as a     *)
(* grid of words: the labels of the shown points, the labels of the shown  *)
(* features and the shown cells, with the length of every line.            *)
(*   a.points, a.fts  <<"all">>, <<"int", n>> or <<"range", s, e, step>>   *)
(*   a.lines, a.width, a.sig  bound, or -1 for no bound                    *)
(*   a.col            bound on the width of one column                     *)
(*   a.incP, a.incF, a.quote, a.indent                                     *)
(*   a.top            expected first line ("" when there is none)          *)
(*   a.obs = [top, labels, head, cells, lines, widths]                     *)
(* The marker of omitted points is "|", of omitted features "--" and of    *)
(* cut texts "-" (the driver spells the box characters so).                *)
(***************************************************************************)
EXTENDS Table

RECURSIVE ShZeros(_)
ShZeros(k) == IF k <= 0 THEN "" ELSE "0" \o ShZeros(k - 1)
ShAbs(n) == IF n < 0 THEN -n ELSE n
\* the texts that stand for a value
ShTexts(c, sig) ==
    IF c[1] = "s" THEN {c[2]}
    ELSE IF c[1] = "x" THEN {""}
    ELSE LET sg == IF c[2] < 0 THEN "-" ELSE ""
             q == ShAbs(c[2]) \div c[3]
         IN IF c[3] = 1
            THEN {sg \o ToString(q)} \cup (IF sig = 0 THEN {} ELSE
                 {sg \o ToString(q) \o "." \o (IF sig < 0 THEN "0" ELSE ShZeros(sig))})
            ELSE IF sig = 0 THEN {sg \o ToString(q), sg \o ToString(q + 1)}
            ELSE {sg \o ToString(q) \o ".5" \o ShZeros(sig - 1)}
\* text s is a complete or cut form of text f within w characters
ShCut(s, f, w) ==
    IF Len(f) <= w THEN s = f
    ELSE s = SubSeq(f, 1, w - 1) \o "-"
ShLabel(nm, i, inc, quote, w) ==
    IF nm = "" \/ ~inc THEN ToString(i - 1)
    ELSE IF ~quote THEN (IF Len(nm) <= w THEN nm ELSE SubSeq(nm, 1, w - 1) \o "-")
    ELSE "'" \o (IF Len(nm) <= w - 2 THEN nm ELSE SubSeq(nm, 1, w - 3) \o "-") \o "'"

\* <<valid, from, to, most>>: the members asked for and how many may be shown
ShAsked(x, n) ==
    IF x[1] = "all" THEN <<TRUE, 1, n, n>>
    ELSE IF x[1] = "int" THEN <<x[2] > 0, 1, n, IF x[2] < n THEN x[2] ELSE n>>
    ELSE LET s == IF x[2] < 0 THEN 0 ELSE x[2]
             e == IF x[3] > n THEN n ELSE x[3]
             k == IF e > s THEN e - s ELSE 0
         IN <<x[4] = 1, s + 1, s + k, k>>
\* the first l and last r members of from..to
ShEnds(from, to, l, r) ==
    [k \in 1..(l + r) |-> IF k <= l THEN from + k - 1 ELSE to - (l + r) + k]
\* split of a marked sequence: number before the marker, number after
ShSplit(s, mark) ==
    LET at == {k \in 1..Len(s) : s[k] = mark} IN
    IF Cardinality(at) # 1 THEN <<FALSE, Len(s), 0>>
    ELSE LET k == CHOOSE k \in at : TRUE IN <<TRUE, k - 1, Len(s) - k>>
ShSum(s) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN 0 ELSE s[k] + F(k - 1) IN F(Len(s))
ShMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
ShBetween(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))

ShRefused(t, a) ==
    LET P == ShAsked(a.points, NPts(t))
        F == ShAsked(a.fts, t.m)
        np == P[3] - P[2] + 1
    IN \/ ~P[1] \/ ~F[1]
       \/ a.lines >= 0 /\ a.lines - 2 < (IF np < 2 THEN np ELSE 2)

\* "" or the name of what is wrong with the observed text
ShWrong(t, a) ==
    LET o == a.obs
        P == ShAsked(a.points, NPts(t))
        F == ShAsked(a.fts, t.m)
        np == P[3] - P[2] + 1
        nf == F[3] - F[2] + 1
        rs == ShSplit(o.labels, "|")
        cs == ShSplit(o.head, "--")
        \* rows
        room == IF a.lines < 0 THEN np ELSE a.lines - 2
        allRows == P[4] = np /\ np <= room
        wantRows == IF allRows THEN np
                    ELSE IF P[4] < np /\ P[4] + 1 <= room THEN P[4] ELSE room - 1
        rows == ShEnds(P[2], P[3], rs[2], rs[3])
        \* columns
        fts == ShEnds(F[2], F[3], cs[2], cs[3])
        lab(i) == ShLabel(t.pn[i], i, a.incP, a.quote, a.col)
        hd(j) == ShLabel(t.fn[j], j, a.incF, a.quote, a.col)
        body == IF rs[1] THEN ShBetween(o.cells, rs[2]) ELSE o.cells
        vals(r) == IF cs[1] THEN ShBetween(body[r], cs[2]) ELSE body[r]
        \* width a feature takes: its label or its widest shown value (at most)
        vtext(i, j) == {LET f == x IN IF Len(f) <= a.col THEN f ELSE SubSeq(f, 1, a.col - 1) \o "-" : x \in ShTexts(t.d[i][j], a.sig)}
        whi(j) == ShMax({Len(hd(j))} \cup UNION {{Len(x) : x \in vtext(rows[r], j)} : r \in 1..Len(rows)})
        wlab == ShMax({Len(lab(rows[r])) : r \in 1..Len(rows)})
        space == a.width - a.indent - wlab - 3
        need(js, w(_), mark) == ShSum([k \in 1..Len(js) |-> w(js[k])]) + 2 * (Len(js) - 1) + (IF mark THEN 4 ELSE 0)
        allF == [k \in 1..nf |-> F[2] + k - 1]
        nextF == ShEnds(F[2], F[3], IF cs[2] = cs[3] THEN cs[2] + 1 ELSE cs[2], IF cs[2] = cs[3] THEN cs[3] ELSE cs[3] + 1)
    IN IF o.top # a.top THEN "first line"
       ELSE IF nf = 0 THEN (IF o.head # <<>> THEN "features of an object that has none" ELSE
                            IF np > 0 /\ allRows /\ o.labels # [r \in 1..np |-> lab(P[2] + r - 1)] THEN "labels" ELSE "")
       ELSE IF np = 0 THEN (IF o.labels # <<>> THEN "points of an object that has none"
                            ELSE IF a.width < 0 /\ F[4] = nf /\ o.head # [j \in 1..nf |-> hd(F[2] + j - 1)] THEN "features" ELSE "")
       ELSE IF a.width >= 0 /\ cs[1] /\ cs[2] = 0 THEN ""   \* not even one feature fits
       ELSE IF rs[1] = allRows THEN (IF allRows THEN "points omitted that fit" ELSE "omitted points not marked")
       ELSE IF rs[2] + rs[3] # wantRows THEN "number of points shown"
       ELSE IF ~allRows /\ rs[2] - rs[3] \notin {0, 1} THEN "points not taken from both ends"
       ELSE IF (IF rs[1] THEN ShBetween(o.labels, rs[2]) ELSE o.labels) # [r \in 1..Len(rows) |-> lab(rows[r])]
            THEN "point labels"
       ELSE IF Len(o.cells) # Len(o.labels) THEN "number of rows"
       ELSE IF cs[1] /\ cs[2] + cs[3] >= nf THEN "nothing is omitted"
       ELSE IF ~cs[1] /\ cs[2] # nf THEN "omitted features not marked"
       ELSE IF cs[1] /\ cs[2] - cs[3] \notin {0, 1} THEN "features not taken from both ends"
       ELSE IF cs[2] + cs[3] > F[4] THEN "more features than asked for"
       ELSE IF (IF cs[1] THEN ShBetween(o.head, cs[2]) ELSE o.head) # [k \in 1..Len(fts) |-> hd(fts[k])]
            THEN "feature labels"
       ELSE IF \E r \in 1..Len(o.cells) : Len(o.cells[r]) # Len(o.head) THEN "columns of a row"
       ELSE IF \E r \in 1..Len(rows) : \E k \in 1..Len(fts) :
                 ~\E f \in ShTexts(t.d[rows[r]][fts[k]], a.sig) : ShCut(vals(r)[k], f, a.col)
            THEN "cell"
       ELSE IF cs[1] /\ \E r \in 1..Len(o.cells) : o.cells[r][cs[2] + 1] # "--" THEN "omitted features not marked in a row"
       ELSE IF rs[1] /\ \E k \in 1..Len(o.head) :
                 o.cells[rs[2] + 1][k] # (IF cs[1] /\ k = cs[2] + 1 THEN "--" ELSE "|")
            THEN "omitted points not marked in a column"
       ELSE IF a.lines >= 0 /\ o.lines > a.lines THEN "too many lines"
       ELSE IF a.width >= 0 /\ \E k \in 1..Len(o.widths) : o.widths[k] > a.width THEN "line too wide"
       ELSE IF cs[1] /\ cs[2] + cs[3] < F[4] /\ (a.width < 0 \/ need(nextF, whi, TRUE) <= space \/ (F[4] = nf /\ need(allF, whi, FALSE) <= space))
            THEN "features omitted that fit"
       ELSE ""

\* what obj.points or obj.features prints: every shown member in its row, with
\* its index (when a column of indices is there), its label and its cells
AxWrong(t0, ax, o) ==
    LET t == Or(ax, t0)
        n == NPts(t)
        rs == ShSplit(o.labels, "|")
        rows == ShEnds(1, n, rs[2], rs[3])
        cs == ShSplit(o.cells[1], "--")
        cols == ShEnds(1, t.m, cs[2], cs[3])
        some(s) == IF rs[1] THEN ShBetween(s, rs[2]) ELSE s
        body == some(o.cells)
        vals(r) == IF cs[1] THEN ShBetween(body[r], cs[2]) ELSE body[r]
        lab(i) == ShLabel(t.pn[i], i, TRUE, FALSE, 60)
        wide(j) == ShMax({Len(ShLabel(t.fn[j], j, TRUE, FALSE, 60))}
                         \cup UNION {{Len(x) : x \in ShTexts(t.d[i][j], 3)} : i \in 1..n})
    IN IF o.head # ToString(n) \o (IF ax = "p" THEN " points" ELSE " features") THEN "first line"
       ELSE IF Len(o.cells) # Len(o.labels) \/ Len(o.idx) # Len(o.labels) THEN "rows"
       ELSE IF ~rs[1] /\ rs[2] # n THEN "omitted members not marked"
       ELSE IF rs[1] /\ rs[2] + rs[3] >= n THEN "nothing is omitted"
       ELSE IF rs[1] /\ rs[2] - rs[3] \notin {0, 1} THEN "members not taken from both ends"
       ELSE IF rs[1] /\ n <= 20 THEN "members omitted that fit"
       ELSE IF some(o.labels) # [r \in 1..Len(rows) |-> lab(rows[r])] THEN "labels"
       ELSE IF some(o.idx) # some(o.labels) /\ some(o.idx) # [r \in 1..Len(rows) |-> ToString(rows[r] - 1)]
            THEN "indices"
       ELSE IF ~cs[1] /\ cs[2] # t.m THEN "omitted values not marked"
       ELSE IF cs[1] /\ (cs[2] + cs[3] >= t.m \/ cs[2] - cs[3] \notin {0, 1}) THEN "values not taken from both ends"
       ELSE IF cs[1] /\ ShSum([j \in 1..t.m |-> wide(j) + 2]) + ShMax({Len(lab(i)) : i \in 1..n}) <= 55
            THEN "values omitted that fit"
       ELSE IF \E r \in 1..Len(body) : Len(body[r]) # Len(o.cells[1]) THEN "columns"
       ELSE IF cs[1] /\ \E r \in 1..Len(body) : body[r][cs[2] + 1] # "--" THEN "omitted values not marked in a row"
       ELSE IF \E r \in 1..Len(rows) : \E k \in 1..Len(cols) :
                 LET x == vals(r)[k] IN    \* cut only when long
                 ~\E f \in ShTexts(t.d[rows[r]][cols[k]], 3) : x = f \/ (Len(x) >= 8 /\ ShCut(x, f, Len(x)))
            THEN "cell"
       ELSE ""
JAxisShow(t, a, post, exc) ==
    IF post # t THEN "query-changed-object"
    ELSE IF exc # "" THEN "unexpected-exception:" \o exc
    ELSE LET w == AxWrong(t, a.ax, a.obs) IN IF w = "" THEN "ok" ELSE "axis: " \o w

JShow(t, a, post, exc) ==
    IF post # t THEN "query-changed-object"
    ELSE IF ShRefused(t, a) THEN (IF exc = "" THEN "missing-exception" ELSE "ok")
    ELSE IF exc # "" THEN "unexpected-exception:" \o exc
    ELSE LET w == ShWrong(t, a) IN IF w = "" THEN "ok" ELSE w
=============================================================================
