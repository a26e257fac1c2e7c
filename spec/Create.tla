------------------------------- MODULE Create -------------------------------
(***************************************************************************)
(* What nimble.data(source, ...) builds.  A source is a grid of cells g     *)
(* (rows of equal length m), read row by row, with or without labels:       *)
(*   "grid"  lists, arrays, sparse matrices: names are inside the grid      *)
(*   "frame" pandas: labels rl (rows), cl (columns) beside the grid         *)
(*   "rows"  a dict of rows: rl are its keys                                *)
(*   "cols"  a list of dicts: cl are the keys                               *)
(*   "base"  nimble objects: names rl, cl ("" where unnamed)                *)
(*   "csv"   a text file: every cell is a string, names inside the grid     *)
(* One definition serves every source: bring it to (rows, names) with rows  *)
(* as points, replace missing values, keep, convert.  rowsArePoints=False   *)
(* means the same of the transposed source.                                 *)
(*                                                                          *)
(* Arguments pn, fn: <<"auto">>, <<"true">>, <<"false">>, <<"list", names>> *)
(* kp, kf: <<"all">> or <<"ids", ids>>.  pr[i] = <<text, kind, cell>> says  *)
(* how Python reads each text ("none" "bool" "int" "float" "str").          *)
(***************************************************************************)
EXTENDS Table

TrG(g, m) == [j \in 1..m |-> [i \in 1..Len(g) |-> g[i][j]]]
NoNames(k) == [i \in 1..k |-> ""]
Drop1(s) == SubSeq(s, 2, Len(s))
Reads(pr, s) == LET k == CHOOSE i \in 1..Len(pr) : pr[i][1] = s IN pr[k]

\* the text of a cell used as a name; names in the grid are given as strings
\* in the companion grid gs
Failed == [ok |-> "no"]
Unsure == [ok |-> "any"]

\* --- automatic detection of names inside a grid ----------------------------
\* first, second: the first two rows as read; b: a number to nimble
IsNumber(c) == c[1] \in {"n", "f", "inf", "x"}       \* nan is a float
AllText(s) == \A i \in 1..Len(s) : IsStr(s[i])
AnyNumber(s) == \E i \in 1..Len(s) : IsNumber(s[i])
PtHeader == <<"s", "pointNames">>
Detect(pn, fn, rows) ==
    IF Len(rows) < 2 \/ fn = "false" \/ Len(rows[1]) = 0 THEN [p |-> pn = "true", f |-> fn = "true"]
    ELSE LET first == rows[1] second == rows[2]
             hd == pn \in {"true", "auto"} /\ first[1] = PtHeader
             tail == IF hd \/ pn = "true" THEN Drop1(first) ELSE first
             text == AllText(IF hd THEN Drop1(first) ELSE first) /\ NoDup(tail)
             num == AnyNumber(IF hd THEN Drop1(second) ELSE second)
             f == fn = "true" \/ (fn = "auto" /\ text /\ num)
         IN [p |-> pn = "true" \/ (pn = "auto" /\ f /\ first[1] = PtHeader), f |-> f]

\* in a text file: a field without text above one with text may be the header
\* of a default name; in the first column it may announce point names
Field(pr, c) == LET r == Reads(pr, c[2]) IN IF r[2] \in {"int", "float"} THEN r[3] ELSE c
EmptyF(c) == c = <<"s", "">>
DetectText(pr, pn, fn, g) ==
    IF Len(g) < 2 THEN Detect(pn, fn, <<>>)
    ELSE LET skip(j) == EmptyF(g[1][j]) /\ ~EmptyF(g[2][j])
             cols == SelectSeq(Upto(Len(g[1])), LAMBDA j : ~skip(j))
             none(c) == IF EmptyF(c) THEN <<"none">> ELSE Field(pr, c)
             two == [i \in 1..2 |-> [k \in 1..Len(cols) |-> none(g[i][cols[k]])]]
             d == Detect(pn, fn, two)
             col == [i \in 1..(Len(g) - 1) |-> g[i + 1][1]]
         IN IF skip(1) /\ d.f /\ pn = "auto" THEN [p |-> NoDup(col), f |-> TRUE] ELSE d

\* detection is in terms of the rows of the source
Detected(a) ==
    LET p == IF a.rap THEN a.pn[1] ELSE a.fn[1]
        f == IF a.rap THEN a.fn[1] ELSE a.pn[1]
    IN IF a.form = "grid" THEN Detect(p, f, a.g)
       ELSE IF a.form = "csv" THEN DetectText(a.pr, p, f, a.g)
       ELSE [p |-> FALSE, f |-> FALSE]

\* --- names taken out of a grid ------------------------------------------------
\* rows: cells, txt: their texts; take the first row / column as names
Extract(rows, txt, m, p, f) ==
    LET r0 == IF f THEN 2 ELSE 1
        c0 == IF p THEN 2 ELSE 1
    IN [rows |-> [i \in 1..(Len(rows) - r0 + 1) |-> SubSeq(rows[i + r0 - 1], c0, m)],
        m |-> m - c0 + 1,
        rl |-> IF p THEN [i \in 1..(Len(rows) - r0 + 1) |-> txt[i + r0 - 1][1]] ELSE <<>>,
        cl |-> IF f THEN SubSeq(txt[1], c0, m) ELSE <<>>]

\* mode of the names of one axis once the source is understood:
\*   "emb" asked for and found in the source, "auto" found there,
\*   "list" given by the user, "none"
ModeOf(arg, found) == IF arg = "list" THEN "list" ELSE IF ~found THEN "none" ELSE IF arg = "true" THEN "emb" ELSE "auto"

\* a dictionary axis: names given as a list must be a reordering of its keys
DictAxis(arg, given, keys) ==
    IF arg = "list" THEN
        IF Len(given) = Len(keys) /\ Range1(given) = Range1(keys)
        THEN [ok |-> "yes", mode |-> "list", names |-> given, order |-> [i \in 1..Len(given) |-> IndexOf(keys, given[i])]]
        ELSE [ok |-> "no", mode |-> "none", names |-> <<>>, order |-> <<>>]
    ELSE [ok |-> "yes", mode |-> IF arg = "false" THEN "none" ELSE IF arg = "true" THEN "emb" ELSE "auto",
          names |-> IF arg = "false" THEN <<>> ELSE keys, order |-> Upto(Len(keys))]

Und(ok, rows, m, pmode, pn, fmode, fn) ==
    [ok |-> ok, rows |-> rows, m |-> m, pmode |-> pmode, pn |-> pn, fmode |-> fmode, fn |-> fn]
UndNo == Und("no", <<>>, 0, "none", <<>>, "none", <<>>)

\* The source with its rows as points.  a.form, a.g, a.gs, a.m, a.rl, a.cl and
\* the name arguments are already those of the transposed source when rows
\* are features (see Oriented)
Understand(a) ==
    CASE a.form \in {"grid", "csv"} ->
         LET p == a.det.p f == a.det.f
             x == Extract(a.g, a.gs, a.m, p, f)
         IN Und("yes", x.rows, x.m, ModeOf(a.pn[1], p), IF a.pn[1] = "list" THEN a.pn[2] ELSE x.rl,
                ModeOf(a.fn[1], f), IF a.fn[1] = "list" THEN a.fn[2] ELSE x.cl)
      [] a.form = "frame" ->
         Und("yes", a.g, a.m,
             IF a.pn[1] = "list" THEN "list" ELSE IF a.pn[1] = "true" THEN "emb" ELSE IF a.pn[1] = "false" THEN "none" ELSE "either",
             IF a.pn[1] = "list" THEN a.pn[2] ELSE a.rl,
             IF a.fn[1] = "list" THEN "list" ELSE IF a.fn[1] = "true" THEN "emb" ELSE IF a.fn[1] = "false" THEN "none" ELSE "either",
             IF a.fn[1] = "list" THEN a.fn[2] ELSE a.cl)
      [] a.form = "rows" ->
         LET p == DictAxis(a.pn[1], IF a.pn[1] = "list" THEN a.pn[2] ELSE <<>>, a.rl) IN
         IF p.ok = "no" \/ a.fn[1] = "true" THEN UndNo
         ELSE Und("yes", Pick(a.g, p.order), a.m, p.mode, p.names,
                  IF a.fn[1] = "list" THEN "list" ELSE "none", IF a.fn[1] = "list" THEN a.fn[2] ELSE <<>>)
      [] a.form = "cols" ->
         LET f == DictAxis(a.fn[1], IF a.fn[1] = "list" THEN a.fn[2] ELSE <<>>, a.cl) IN
         IF f.ok = "no" \/ a.pn[1] = "true" THEN UndNo
         ELSE Und("yes", [i \in 1..Len(a.g) |-> Pick(a.g[i], f.order)], a.m,
                  IF a.pn[1] = "list" THEN "list" ELSE "none", IF a.pn[1] = "list" THEN a.pn[2] ELSE <<>>, f.mode, f.names)
      [] a.form \in {"base", "bases"} ->
         LET has(s) == \E i \in 1..Len(s) : s[i] # "" IN
         Und(IF a.form = "bases" /\ ((a.pn[1] = "true" /\ ~has(a.rl)) \/ (a.fn[1] = "true" /\ ~has(a.cl))) THEN "any" ELSE "yes", a.g, a.m,
             IF a.pn[1] = "list" THEN "list" ELSE IF a.pn[1] = "false" \/ ~has(a.rl) THEN "none" ELSE IF a.pn[1] = "true" THEN "emb" ELSE "auto",
             IF a.pn[1] = "list" THEN a.pn[2] ELSE a.rl,
             IF a.fn[1] = "list" THEN "list" ELSE IF a.fn[1] = "false" \/ ~has(a.cl) THEN "none" ELSE IF a.fn[1] = "true" THEN "emb" ELSE "auto",
             IF a.fn[1] = "list" THEN a.fn[2] ELSE a.cl)

\* rowsArePoints=False: the transposed source, in which the roles of the
\* labels, and of the dictionary keys, are exchanged
Oriented(b) ==
    LET a == [b EXCEPT !.det = Detected(b)] IN
    IF a.rap THEN a
    ELSE [a EXCEPT !.g = TrG(a.g, a.m), !.gs = TrG(a.gs, a.m), !.m = Len(a.g), !.rl = a.cl, !.cl = a.rl,
                   !.form = IF a.form = "rows" THEN "cols" ELSE IF a.form = "cols" THEN "rows" ELSE a.form,
                   !.det = [p |-> a.det.f, f |-> a.det.p]]

\* --- keeping ----------------------------------------------------------------------
\* result: [ok, idx, names]
KeepNo == [ok |-> "no", idx |-> <<>>, names |-> <<>>]
KeepAny == [ok |-> "any", idx |-> <<>>, names |-> <<>>]
Keep(keep, n, mode, names) ==
    LET ns == IF mode = "none" THEN NoNames(n) ELSE names IN
    IF keep[1] = "all" THEN
        IF mode # "none" /\ Len(ns) # n THEN KeepNo
        ELSE IF ~DistinctNames(ns) THEN KeepNo
        ELSE [ok |-> "yes", idx |-> Upto(n), names |-> ns]
    ELSE LET ids == keep[2] k == Len(keep[2]) IN
        IF ~NoDup(ids) THEN KeepNo
        ELSE IF \E i \in 1..k : ids[i][1] = "i" /\ ids[i][2] < 0 THEN KeepAny
        ELSE IF mode = "list" /\ Len(ns) # n THEN      \* the names of what is kept
            IF Len(ns) # k \/ ~DistinctNames(ns) THEN KeepNo
            ELSE IF \E i \in 1..k : ids[i][1] = "s" \/ ids[i][2] >= n THEN KeepNo
            ELSE [ok |-> "yes", idx |-> [i \in 1..k |-> ids[i][2] + 1], names |-> ns]
        ELSE IF ~DistinctNames(ns) THEN KeepAny         \* the duplicates may be dropped
        ELSE LET idx == ResolveAll(ns, ids) IN
            IF ~AllOk(idx) \/ ~NoDup(idx) THEN KeepNo
            ELSE IF k = n /\ mode = "list" THEN KeepNo   \* names of which order?
            ELSE [ok |-> IF k = n /\ mode # "emb" THEN "any" ELSE "yes", idx |-> idx, names |-> Pick(ns, idx)]

\* --- values -------------------------------------------------------------------------
Fill(tam, rep, c) == IF \E i \in 1..Len(tam) : tam[i] = c THEN rep ELSE c

\* the kind of a column of a text file: all values that are not empty agree
TextKind(pr, col) ==
    LET ks == {Reads(pr, col[i][2])[2] : i \in 1..Len(col)} \ {"none"} IN
    IF ks = {} THEN "empty"
    ELSE IF ks = {"bool"} THEN "bool"
    ELSE IF ks \subseteq {"int", "float"} THEN "num"
    ELSE "text"
ReadCell(pr, kind, c) ==
    IF kind \in {"num", "bool"} THEN (IF c[2] = "" THEN Miss ELSE Reads(pr, c[2])[3])
    ELSE c

\* conversions: the cell, or <<"err">>, or <<"str", cell>>: any text of it
ConvCell(pr, kind, c) ==
    CASE kind = "none" -> c
      [] kind = "num"  -> IF IsStr(c) THEN (IF Reads(pr, c[2])[2] \in {"int", "float"} THEN Reads(pr, c[2])[3] ELSE <<"err">>)
                          ELSE c
      [] kind = "str"  -> IF IsStr(c) THEN c ELSE <<"str", c>>
\* the text s shows cell c
Shows(pr, s, c) == IF IsMiss(c) THEN s \in {"nan", "None"} ELSE LET r == Reads(pr, s) IN r[2] \in {"int", "float", "bool"} /\ r[3] = c

\* the conversion of each kept feature
ConvList(conv, kf, m, fidx, fnames, full) ==
    LET k == Len(fidx) IN
    CASE conv[1] = "none" -> [ok |-> "yes", c |-> [j \in 1..k |-> "none"]]
      [] conv[1] = "one"  -> [ok |-> "yes", c |-> [j \in 1..k |-> conv[2]]]
      [] conv[1] = "list" ->
            \* all features, reordered: types in which order?
            IF kf[1] = "ids" /\ k = m /\ fidx # Upto(m) THEN [ok |-> "unsure", c |-> <<>>]
            ELSE IF Len(conv[2]) = k THEN [ok |-> "yes", c |-> conv[2]]
            ELSE IF kf[1] = "ids" /\ Len(conv[2]) = m THEN [ok |-> "full", c |-> Pick(conv[2], fidx)]
            ELSE [ok |-> "no", c |-> <<>>]
      [] conv[1] = "dict" ->
            LET d == conv[2]
                idx == [i \in 1..Len(d) |-> Resolve(fnames, d[i][1])]
                byidx == kf[1] = "ids" /\ \E i \in 1..Len(d) : d[i][1][1] = "i"
                lost == {i \in 1..Len(d) : idx[i] = 0}
                known == \A i \in lost : d[i][1][1] = "s" /\ Contains1(full, d[i][1][2])
            IN IF byidx THEN [ok |-> "index", c |-> <<>>]
               ELSE IF ~known THEN [ok |-> "no", c |-> <<>>]
               ELSE IF \E i, j \in 1..Len(d) : idx[i] = idx[j] /\ idx[i] # 0 /\ d[i][2] # d[j][2] THEN [ok |-> "no", c |-> <<>>]
               ELSE [ok |-> "yes",
                     c |-> [j \in 1..k |-> IF Contains1(idx, j) THEN d[IndexOf(idx, j)][2] ELSE "none"]]

ConvKeyLost(d, fnames) == \E i \in 1..Len(d) : Resolve(fnames, d[i][1]) = 0

\* --- the table ------------------------------------------------------------------------
\* result [ok, rows, m, pn, fn, pe, fe]; pe/fe: the names may be absent as well
CNo == [ok |-> "no", rows |-> <<>>, m |-> 0, pn |-> <<>>, fn |-> <<>>, pe |-> FALSE, fe |-> FALSE]
CAny == [CNo EXCEPT !.ok = "any"]
Created(a0) ==
    LET a == Oriented(a0) s == Understand(a) IN
    IF s.ok = "no" \/ a.pn[1] = "bad" \/ a.fn[1] = "bad" THEN CNo
    ELSE
    LET either == s.pmode = "either" \/ s.fmode = "either"
        pm == IF s.pmode = "either" THEN "auto" ELSE s.pmode
        fm == IF s.fmode = "either" THEN "auto" ELSE s.fmode
        file == a.form = "csv"
        p == Keep(a.kp, Len(s.rows), pm, s.pn)
        \* rows of the file that all end with the separator
        allends == \A i \in 1..Len(s.rows) : EmptyF(s.rows[i][s.m])
        ends == /\ file /\ a.rap /\ a.emptymiss /\ s.m > 0 /\ Len(p.idx) > 0
                /\ \A i \in 1..Len(p.idx) : EmptyF(s.rows[p.idx[i]][s.m])
                /\ \/ fm = "none"
                   \/ fm = "list" /\ Len(s.fn) = s.m - 1
                   \/ fm \in {"emb", "auto"} /\ s.fn[s.m] = ""
        cut == ends /\ a.kf[1] = "all"
        m == IF cut THEN s.m - 1 ELSE s.m
        fnames == IF cut /\ fm \in {"emb", "auto"} THEN SubSeq(s.fn, 1, m) ELSE s.fn
        f == Keep(a.kf, m, fm, fnames)
    IN
    IF file /\ pm \in {"emb", "auto"} /\ Contains1(s.pn, "") THEN CAny
    ELSE IF file /\ ~a.rap /\ fm \in {"emb", "auto"} /\ Contains1(s.fn, "") THEN CAny
    ELSE IF a.form = "grid" /\ \/ pm \in {"emb", "auto"} /\ ~NoDup(s.pn) /\ DistinctNames(s.pn)
                               \/ fm \in {"emb", "auto"} /\ ~NoDup(s.fn) /\ DistinctNames(s.fn) THEN CAny
    ELSE IF cut /\ ~allends THEN CAny
    \* a file is not read to its end to count what is not kept
    ELSE IF file /\ p.ok = "no" /\ pm = "list" /\ a.kp[1] = "ids" /\ Len(s.pn) > Len(s.rows) THEN CAny
    ELSE IF file /\ pm = "list" /\ a.kp[1] = "ids" /\ Len(s.pn) # Len(s.rows) THEN CAny
    ELSE IF file /\ fm = "list" /\ a.kf[1] = "ids" /\ Len(s.fn) # m THEN CAny
    ELSE IF /\ file /\ ~a.rap /\ Len(s.rows) > 0 /\ pm = "list" /\ Len(s.pn) = Len(s.rows) - 1
            /\ \A j \in Range1(IF f.ok = "no" THEN Upto(s.m) ELSE f.idx) : EmptyF(s.rows[Len(s.rows)][j]) THEN CAny   \* lines ending with the separator
    ELSE IF Len(s.rows) = 0 \/ m = 0 THEN CAny             \* filled to the names given
    ELSE IF file /\ f.ok = "no" /\ ~a.rap /\ fm = "list" /\ a.kf[1] = "ids" /\ Len(s.fn) > m THEN CAny
    ELSE IF p.ok = "no" \/ f.ok = "no" THEN (IF either \/ (file /\ a.ign) THEN CAny ELSE CNo)
    ELSE IF Len(p.idx) = 0 \/ Len(f.idx) = 0 THEN CAny
    ELSE
    LET kept == [i \in 1..Len(p.idx) |-> Pick(s.rows[p.idx[i]], f.idx)]
        \* the values of a feature of the file are typed over what is kept; in
        \* a file whose rows are the features these are the rows
        kinds == IF ~file THEN <<>>
                 ELSE IF a.rap THEN [j \in 1..Len(f.idx) |-> TextKind(a.pr, [i \in 1..Len(kept) |-> kept[i][j]])]
                 ELSE [i \in 1..Len(kept) |-> TextKind(a.pr, kept[i])]
        KindOf(i, j) == IF a.rap THEN kinds[j] ELSE kinds[i]
        Value(i, j) == LET c == kept[i][j] IN
                       IF ~file THEN Fill(a.tam, a.rep, c)
                       ELSE IF EmptyF(c) /\ a.emptymiss THEN a.rep
                       ELSE Fill(a.tam, a.rep, ReadCell(a.pr, KindOf(i, j), c))
        undef == file /\ ~a.emptymiss /\ \E i \in 1..Len(kept), j \in 1..Len(f.idx) :
                                            EmptyF(kept[i][j]) /\ KindOf(i, j) \in {"num", "bool"}
        filled == [i \in 1..Len(kept) |-> [j \in 1..Len(f.idx) |-> Value(i, j)]]
        numeric == {k \in 1..Len(kinds) : kinds[k] \in {"num", "bool"} \/ (kinds[k] = "empty" /\ a.emptymiss)}
        emptyPoint == \E i \in 1..Len(kept) : \A j \in 1..Len(f.idx) : EmptyF(kept[i][j])
        jdx == IF file /\ a.ign /\ a.rap THEN SelectSeq(Upto(Len(f.idx)), LAMBDA j : j \in numeric) ELSE Upto(Len(f.idx))
        rows == [i \in 1..Len(filled) |-> Pick(filled[i], jdx)]
        fn == Pick(f.names, jdx)
        cv == ConvList(a.conv, a.kf, m, Pick(f.idx, jdx), fn, IF fm = "none" THEN <<>> ELSE fnames)
        unsure == \/ undef
                  \/ cv.ok = "unsure"
                  \/ file /\ a.ign /\ (~a.rap \/ a.conv[1] # "none")
                  \/ file /\ cv.ok \in {"full", "index"}       \* ids of which features?
                  \/ file /\ a.conv[1] = "dict" /\ ConvKeyLost(a.conv[2], fn)
                  \/ file /\ ~a.rap /\ emptyPoint
                  \/ Len(jdx) = 0
        named == \/ a.kp[1] = "ids" /\ (\E i \in 1..Len(a.kp[2]) : a.kp[2][i][1] = "s")
                 \/ a.kf[1] = "ids" /\ (\E i \in 1..Len(a.kf[2]) : a.kf[2][i][1] = "s")
                 \/ a.conv[1] = "dict"
        maybe == p.ok = "any" \/ f.ok = "any" \/ s.ok = "any" \/ (either /\ named)
    IN IF unsure THEN CAny
       ELSE IF cv.ok \in {"no", "index"} THEN (IF either THEN CAny ELSE CNo)
       ELSE LET done == [i \in 1..Len(rows) |-> [j \in 1..Len(jdx) |-> ConvCell(a.pr, cv.c[j], rows[i][j])]]
                bad == \E i \in 1..Len(done), j \in 1..Len(jdx) : done[i][j] = <<"err">>
            IN IF bad THEN CNo
               ELSE [ok |-> IF maybe THEN "any" ELSE "yes", rows |-> done, m |-> Len(jdx), pn |-> p.names, fn |-> fn,
                     pe |-> s.pmode = "either", fe |-> s.fmode = "either"]

CellOk(pr, want, got) == want = got \/ (want[1] = "str" /\ IsStr(got) /\ Shows(pr, got[2], want[2]))
NamesOk(want, got, either) == want = got \/ (either /\ got = NoNames(Len(want)))
CreateVerdict(a, post, exc, same, args) ==
    IF ~args THEN "arguments-modified"
    ELSE IF ~same THEN "source-modified"
    ELSE LET o == Created(a) IN
         IF exc # "" THEN (IF o.ok = "yes" THEN "unexpected-exception:" \o exc ELSE "ok")
         ELSE IF o.ok = "no" THEN "missing-exception"
         ELSE IF o.ok = "any" /\ o.rows = <<>> THEN "ok"
         ELSE IF ~WellFormed(post) THEN "malformed"
         ELSE IF Len(post.d) # Len(o.rows) \/ post.m # o.m THEN "shape"
         ELSE IF \E i \in 1..Len(post.d), j \in 1..post.m : ~CellOk(a.pr, o.rows[i][j], post.d[i][j]) THEN "data"
         ELSE IF ~NamesOk(o.pn, post.pn, o.pe) THEN "point-names"
         ELSE IF ~NamesOk(o.fn, post.fn, o.fe) THEN "feature-names"
         ELSE IF a.rt # "" /\ a.rt # post.ty THEN "type"
         ELSE "ok"
=============================================================================
