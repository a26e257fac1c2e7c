-------------------------------- MODULE Save --------------------------------
(***************************************************************************)
(* Writing an object to a file and reading the file again.  What a format   *)
(* can hold is stated here; everything it can hold must come back, and what *)
(* it cannot hold is refused, never altered.                                *)
(***************************************************************************)
EXTENDS Verdict, Models
SvRead(rd, s) == LET k == CHOOSE i \in 1..Len(rd) : rd[i][1] = s IN rd[k]
SvKind(a, c, i, j) ==
    IF IsMiss(c) THEN "miss" ELSE IF a.bools[i][j] THEN "bool"
    ELSE IF ~IsStr(c) THEN "num" ELSE SvRead(a.rd, c[2])[2]
SvNamed(ns) == \E i \in 1..Len(ns) : ns[i] # ""
SvUnnamed(ns) == Cardinality({i \in 1..Len(ns) : ns[i] = ""})
\* a text in a file stands for this cell
SvShows(a, got, c) == IsStr(got) /\ SvRead(a.rd, got[2])[3] = c
\* what may be read from the text of cell c in a column holding cells of these kinds
SvCell(a, K, c, k, got) ==
    CASE k = "miss" -> IsMiss(got) \/ got = c
      [] K \subseteq {"num"} -> got = (IF IsStr(c) THEN SvRead(a.rd, c[2])[3] ELSE c)
      [] K = {"bool"} -> got = (IF IsStr(c) THEN SvRead(a.rd, c[2])[3] ELSE c) \/ (a.anymiss /\ (got = c \/ SvShows(a, got, c)))
      [] OTHER -> got = c \/ (~IsStr(c) /\ SvShows(a, got, c))
SvCsvData(a, t, r) ==
    \A j \in 1..t.m :
        LET k == [i \in 1..Len(t.d) |-> SvKind(a, t.d[i][j], i, j)]
            K == {k[i] : i \in 1..Len(t.d)} \ {"miss"}
        IN \A i \in 1..Len(t.d) : SvCell(a, K, t.d[i][j], k[i], r.d[i][j])
SvNames(inc, ns) == IF inc THEN ns ELSE [i \in 1..Len(ns) |-> ""]
JSave(a, t, post, exc, ret) ==
    LET n == Len(t.d) r == ret[2]
        numeric == \A i \in 1..n : \A j \in 1..t.m : ~IsStr(t.d[i][j])
        known == a.fmt \in {"csv", "mtx", "hdf5", "h5", "pickle", "p", "pkl"}
        pick == a.fmt \in {"pickle", "p", "pkl"}
        hdf == a.fmt \in {"hdf5", "h5"}
        wantp == SvNames(a.inc, t.pn)
        wantf == IF hdf THEN [j \in 1..t.m |-> ""] ELSE SvNames(a.inc, t.fn)
        \* names the format may refuse
        odd == \/ a.fmt = "mtx" /\ a.oddname
               \/ hdf /\ \E i \in 1..n : \E j \in 1..t.m : a.bools[i][j]      \* among other values
               \/ hdf /\ (a.slash \/ (SvNamed(wantp) /\ SvUnnamed(wantp) > 0))
               \/ a.fmt = "csv" /\ (SvUnnamed(wantp) > 1 \/ SvUnnamed(wantf) > 1) /\ (SvNamed(wantp) \/ SvNamed(wantf))
    IN IF post # t THEN "save-changed-object:" \o TDiff(t, post)
       ELSE IF n = 0 \/ t.m = 0 \/ ~known
            THEN (IF exc = "" THEN "missing-exception" ELSE IF a.made THEN "refused-but-written" ELSE "ok")
       ELSE IF a.sep THEN "save-changed-csv-module"
       ELSE IF ~numeric /\ (hdf \/ a.fmt = "mtx") THEN (IF exc = "" /\ \E q \in 1..Len(a.rd) : a.rd[q][2] # "num" THEN "missing-exception" ELSE "ok")
       ELSE IF exc # "" THEN (IF odd THEN "ok" ELSE a.stage \o "-exception:" \o exc)
       ELSE IF a.rty # "" /\ r.ty # a.rty THEN "loaded-type"
       ELSE IF pick THEN (IF [r EXCEPT !.ty = t.ty] # t THEN "loaded-pickle:" \o TDiff(t, [r EXCEPT !.ty = t.ty])
                          ELSE IF a.rty = "" /\ r.ty # a.orig THEN "loaded-type" ELSE "ok")
       \* an empty last column without a name is taken for a trailing separator
       ELSE IF a.fmt = "csv" /\ r.m = t.m - 1 /\ wantf[t.m] = "" /\ \A i \in 1..n : IsMiss(t.d[i][t.m]) THEN "ok"
       ELSE IF Len(r.d) # n \/ r.m # t.m THEN "loaded-shape"
       ELSE IF r.pn # wantp THEN "loaded-point-names"
       ELSE IF r.fn # wantf THEN "loaded-feature-names"
       ELSE IF a.fmt # "csv" THEN (IF r.d # t.d THEN "loaded-data" ELSE "ok")
       ELSE IF ~SvCsvData(a, t, r) THEN "loaded-data" ELSE "ok"
=============================================================================
