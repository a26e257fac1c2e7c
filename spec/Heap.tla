-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Many data objects at once.  A heap maps object ids to records           *)
(*   [t |-> contents, src |-> id of the object viewed or 0, w |-> window,   *)
(*    view |-> BOOLEAN].                                                    *)
(* A call changes its receiver; the only other objects that may change are *)
(* the views of the receiver, which follow it.                              *)
(***************************************************************************)
EXTENDS Verdict

\* operations that keep the number and the order of points and features
ContentOps == {"setNames", "setNamesOld", "transformElements", "axisTransform", "replace", "rectConst", "rectTable",
               "fill", "binScalar", "binTable", "normalize", "intcode"}
EditOps == ContentOps \cup {"structural", "permute", "sort", "insert", "transpose", "flatten", "unflatten",
               "gather", "spread", "parse", "onehot", "merge", "matmul"}
IsEdit(e) == /\ e.op \in EditOps
             /\ e.op = "structural" => e.a.op \in {"extract", "delete", "retain"}
             /\ e.op \in {"binScalar", "binTable", "matmul"} => e.a.inp

\* a window is a record of the first and last point and feature (1-based)
Window(t, w) == Sub(t, [k \in 1..(w.pe - w.ps + 1) |-> w.ps + k - 1], [k \in 1..(w.fe - w.fs + 1) |-> w.fs + k - 1])
WindowOf(t, a) == [ps |-> ViewEnd(t.pn, a.ps, 1), pe |-> ViewEnd(t.pn, a.pe, Len(t.d)),
                   fs |-> ViewEnd(t.fn, a.fs, 1), fe |-> ViewEnd(t.fn, a.fe, t.m)]
\* the window in the source of a window in a view
Compose(outer, inner) == [ps |-> outer.ps + inner.ps - 1, pe |-> outer.ps + inner.pe - 1,
                          fs |-> outer.fs + inner.fs - 1, fe |-> outer.fs + inner.fe - 1]

\* what object k has to hold after receiver r went from pre to post.  A view
\* shows the values and, when the call renamed something, the names of its
\* source (a view that missed a renaming is reported once, at the renaming).
Expected(h, k, r, pre, post) ==
    IF r # 0 /\ h[k].src = r
    THEN LET w == Window(post, h[k].w) IN
         [w EXCEPT !.pn = IF pre.pn = post.pn THEN h[k].t.pn ELSE @,
                   !.fn = IF pre.fn = post.fn THEN h[k].t.fn ELSE @]
    ELSE h[k].t

Dropped(h, e) == IF e.tgt # 0 /\ e.op \notin ContentOps /\ e.exc = "" /\ e.pre # e.post
                 THEN {k \in DOMAIN h : h[k].src = e.tgt} ELSE {}
=============================================================================
