------------------------------ MODULE Verdict ------------------------------
(* Total comparison of an observed call with the outcome the model allows.  *)
EXTENDS Arith, Merge, Reshape, Group, Norm, Query

\* name the first component in which two tables differ
TDiff(a, b) ==
    IF a = b THEN "ok"
    ELSE IF a.d # b.d THEN "data"
    ELSE IF a.m # b.m THEN "width"
    ELSE IF a.pn # b.pn THEN "point-names"
    ELSE IF a.fn # b.fn THEN "feature-names"
    ELSE IF a.ty # b.ty THEN "type"
    ELSE "other"

RDiff(want, got) ==
    IF want = got THEN "ok"
    ELSE IF want[1] # got[1] THEN "kind"
    ELSE IF want[1] = "t" THEN TDiff(want[2], got[2])
    ELSE "value"

\* o: allowed outcome; pre/post: observed states; exc: "" or exception name
Judge(o, pre, post, ret, exc) ==
    IF o.ok = "abort" THEN       \* a user function failed half-way
        IF exc = "" THEN "missing-exception"
        ELSE IF Len(post.d) # Len(pre.d) \/ post.m # pre.m \/ post.pn # pre.pn \/ post.fn # pre.fn
        THEN "aborted-call-changed-shape" ELSE "ok"
    ELSE IF o.ok = "open" THEN    \* any answer, but a failing call changes nothing
        IF exc # "" /\ post # pre THEN "failed-call-changed-object:" \o TDiff(pre, post) ELSE "ok"
    ELSE IF o.ok = "free" THEN    \* any answer, but the receiver is unchanged
        IF post = pre THEN "ok" ELSE "query-changed-object:" \o TDiff(pre, post)
    ELSE IF exc # "" THEN
        IF post # pre THEN "failed-call-changed-object:" \o TDiff(pre, post)
        ELSE IF o.ok = "yes" THEN "unexpected-exception:" \o exc
        ELSE "ok"
    ELSE IF o.ok = "no" THEN "missing-exception"
    ELSE LET p == TDiff(o.post, post) IN
         IF p # "ok" THEN "post-" \o p
         ELSE LET r == RDiff(o.ret, ret) IN IF r # "ok" THEN "ret-" \o r ELSE "ok"
=============================================================================
