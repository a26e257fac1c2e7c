------------------------------- MODULE Calls -------------------------------
(* The verdict on one recorded public call: the operation named in the event *)
(* is looked up in the model and its outcome compared with the observation.  *)
EXTENDS Verdict, Save, Dims, Show
J(e, o) == Judge(o, e.pre, e.post, e.ret, e.exc)

V(e) ==
    LET op == e.op a == e.a t == e.pre IN
    CASE op = "build" -> (LET x == TDiff(a.want, e.post) IN IF x = "ok" THEN "ok" ELSE "build-" \o x)
      [] op = "frame" -> IF e.post = a.was THEN "ok" ELSE "changed:" \o TDiff(a.was, e.post)
      [] op = "frameCall" -> J(e, Outcome("yes", t, NoRet))
      [] op = "bad"   -> "unobservable:" \o e.exc
      [] op = "structural" /\ ~a.rand -> J(e, Structural(e.rk, a.ax, a.op, t, a.sel, a.num))
      [] op = "structural" /\ a.rand ->
            IF e.exc # "" /\ e.post # t THEN "failed-call-changed-object:" \o TDiff(t, e.post)
            ELSE StructuralRandomOk(e.rk, a.ax, a.op, t, a.sel, a.num, e.exc # "", e.post, e.ret)
      [] op = "setNames"  -> J(e, SetNamesAll(a.ax, t, a.new))
      [] op = "setNamesOld" -> J(e, SetNamesSome(a.ax, t, a.olds, a.new))
      [] op = "permute" -> J(e, Permute(a.ax, t, a.ids))
      [] op = "sort"    -> J(e, SortBy(e.rk, a.ax, t, a.by, a.rev))
      [] op = "insert"  -> J(e, Insert(a.ax, t, a.other,
                               IF a.at[1] = "end" THEN NPts(Or(a.ax, t))
                               ELSE IF a.at = <<"i", NPts(Or(a.ax, t))>> /\ NPts(Or(a.ax, t)) > 0 THEN NPts(Or(a.ax, t))
                               ELSE Resolve(Or(a.ax, t).pn, a.at) - 1))
      [] op = "repeat"  -> J(e, Repeat(a.ax, t, a.k, a.byVec))
      [] op = "unique"  -> J(e, Unique(a.ax, t))
      [] op = "transpose" -> J(e, Outcome("yes", Tr(t), NoRet))
      [] op = "T"       -> J(e, Outcome("yes", t, <<"t", Tr(t)>>))
      [] op = "flatten" -> J(e, Flatten(t, a.order))
      [] op = "transformElements" -> J(e, TransformElements(t, a.f, a.plim, a.flim, a.pz, a.skip))
      [] op = "calcElements"  -> J(e, CalcElements(t, a.f, a.plim, a.flim, a.pz, a.skip, a.ty))
      [] op = "matchElements" -> J(e, MatchElements(t, a.f, a.plim, a.flim))
      [] op = "countElements" -> J(e, CountElements(t, a.f))
      [] op = "axisTransform" -> J(e, AxisTransform(a.ax, t, a.f, a.lim))
      [] op = "axisCalculate" -> J(e, AxisCalculate(a.ax, t, a.f, a.lim))
      [] op = "axisMatching"  -> J(e, AxisMatching(e.rk, a.ax, t, a.p, a.fname))
      [] op = "mapReduce"     -> J(e, MapReduce(a.ax, t, a.map, a.red))
      [] op = "replace"       -> J(e, Replace(a.ax, t, a.u, a.lim))
      [] op = "rectConst"     -> J(e, RectConst(t, a.c, a.ps, a.fs, a.pe, a.fe))
      [] op = "putItem"       -> J(e, PutItem(t, a.x, a.y, a.v))
      [] op = "rectTable"     -> J(e, RectTable(t, a.u, a.ps, a.fs, a.pe, a.fe))
      [] op = "binScalar" -> J(e, BinScalar(t, a.op, a.c, a.rev, a.inp))
      [] op = "binTable"  -> J(e, BinTable(t, a.op, a.u, a.inp))
      [] op = "unary"     -> J(e, Unary(t, a.op))
      [] op = "matmul"    -> J(e, MatMul(t, a.u, IF e.ret[1] = "t" THEN e.ret[2].ty ELSE "", a.inp))
      [] op = "matpow"    -> J(e, MatPow(t, a.k))
      [] op = "stretch"   -> J(e, Stretch(t, a.o, a.os, a.op, a.left))
      [] op = "unflatten" -> J(e, Unflatten(t, a.dims, a.order, a.parts))
      [] op = "gather"    -> J(e, Gather(t, a.ids, a.nn, a.vn))
      [] op = "spread"    -> J(e, Spread(t, a.nid, a.vids, a.suf))
      [] op = "parse"     -> J(e, Parse(t, a.id, a.parts, a.names))
      [] op = "onehot"    -> J(e, OneHot(t, a.id, a.labels, a.names))
      [] op = "intcode"   -> J(e, IntCode(t, a.id))
      [] op = "groupBy"   -> J(e, GroupBy(e.rk, t, a.ids, a.mode, a.stat, a.sname))
      [] op = "stat"      -> J(e, StatOp(e.rk, a.ax, t, a.s, a.names))
      [] op = "statBy"    -> J(e, GroupBy(e.rk, t, a.ids, "stat", a.s, a.names))
      [] op = "similar"   -> J(e, Similar(a.ax, t, a.s))
      [] op = "normalize" -> J(e, Normalize(t, a.f, a.lim, a.has, a.u))
      [] op = "inverse"   -> J(e, InverseOp(t))
      [] op = "solve"     -> J(e, SolveOp(t, a.u))
      [] op = "least"     -> J(e, LeastOp(t, a.u))
      [] op = "pinv"      -> J(e, PInvOp(t))
      [] op = "residuals" -> J(e, ResidualsOp(t, a.u))
      [] op = "freport"   -> J(e, FeatureReport(e.rk, t, a.stats, a.names, IF e.ret[1] = "t" THEN e.ret[2].ty ELSE ""))
      [] op = "report"    -> J(e, Report(t, IF e.ret[1] = "t" THEN e.ret[2].ty ELSE ""))
      [] op = "countUnique" -> IF e.post # t THEN "query-changed-object"
                               ELSE JCounts(t, a.ps, a.fs, e.exc, e.ret)
      [] op = "trainTest" -> IF e.post # t THEN "query-changed-object"
                             ELSE JSplit(t, a, e.exc, e.ret)
      [] op = "merge"         -> J(e, MergeOp(e.rk, t, a.u, a))
      [] op = "getitem"   -> J(e, GetItem(t, a.x, a.y))
      [] op = "getitem1"  -> J(e, GetItem1(t, a.key))
      [] op = "axisItem"  -> J(e, AxisItem(a.ax, t, a.key))
      [] op = "view"      -> J(e, View(t, a.ps, a.pe, a.fs, a.fe))
      [] op = "iterAxis"  -> J(e, IterAxis(a.ax, t))
      [] op = "iterElems" -> J(e, IterElems(t, a.order, a.only))
      [] op = "iterVec"   -> J(e, IterVector(t))
      [] op = "len"       -> J(e, LenOp(t))
      [] op = "getIndex"  -> J(e, GetIndex(a.ax, t, a.id))
      [] op = "getIndices" -> J(e, GetIndices(a.ax, t, a.ids))
      [] op = "getName"   -> J(e, GetName(a.ax, t, a.k))
      [] op = "getNames"  -> J(e, GetNames(a.ax, t))
      [] op = "hasName"   -> J(e, HasName(a.ax, t, a.nm))
      [] op = "containsZero" -> J(e, ContainsZero(t))
      [] op = "identical" -> J(e, Identical(t, a.u, a.mixed))
      [] op = "approx"    -> J(e, ApproxEqual(t, a.u))
      [] op = "copyTo"    -> J(e, CopyTo(t, a.ty, a.rows))
      [] op = "copyRaw"   -> J(e, CopyRaw(t, a.rows))
      [] op = "copyFlat"  -> J(e, CopyFlat(t))
      [] op = "copyDicts" -> J(e, CopyDicts(t, a.rows))
      [] op = "matchFn"   -> IF e.exc # "" THEN "unexpected-exception:" \o e.exc
                             ELSE IF e.ret = <<"b", MatchFn(a.f, a.v)>> THEN "ok" ELSE "match-value"
      [] op = "matchAll"  -> IF e.exc # "" THEN "unexpected-exception:" \o e.exc
                             ELSE IF e.ret = <<"b", MatchAll(a.q, a.f, a.vs)>> THEN "ok" ELSE "match-value"
      [] op = "query"     -> J(e, ElemQuery(e.rk, t, a.ws, a.want, a.v, a.mode))
      [] op = "queryStruct" -> (LET o == QueryStruct(e.rk, a.ax, a.op, t, a.kinds, a.ws, a.want) IN
                                IF o.ok = "skip" THEN "ok" ELSE J(e, o))
      [] op = "queryElems" -> J(e, QueryElems(e.rk, a.op, t, a.kinds, a.ws, a.want))
      [] op = "score"     -> J(e, Score(a.f, t, a.u))
      [] op = "decorated" -> J(e, Decorated(a.fl, t, a.u))
      [] op = "confusion" -> J(e, Confusion(e.rk, t, a.u, a.lab, a.txt, a.frac))
      [] op = "interval"  -> J(e, Interval(a.f, t, a.u, a.c))
      [] op = "detect"    -> (LET d == Detect(a.declared, a.kind) IN
                              IF d = <<>> THEN (IF e.exc = "" THEN "missing-exception" ELSE "ok")
                              ELSE IF e.exc # "" THEN "unexpected-exception:" \o e.exc
                              ELSE IF e.ret = <<"c", <<"s", d[1]>>>> THEN "ok" ELSE "direction")
      [] op = "multi"     -> (LET v == JMulti(e.rk, a, e.exc, e.ret) IN
                              IF v = "ok" \/ ~a.re THEN v ELSE "retrained-" \o v)
      [] op = "knn"       -> JKnn(e.rk, a, e.exc, e.ret)
      [] op = "linear"    -> JLinear(a, e.exc, e.ret)
      [] op = "learnFill" -> JFill(a, t, e.post, e.exc)
      [] op = "learnNorm" -> IF e.post # t THEN "query-changed-object" ELSE JNormalize(a, t, e.exc, e.ret)
      [] op = "hdBuild"   -> IF a.want = e.post THEN "ok" ELSE "build-" \o HDiff(a.want, e.post)
      [] op = "hdFrame"   -> IF a.was = e.post THEN "ok" ELSE "changed:" \o HDiff(a.was, e.post)
      [] op = "hd"        -> (LET v == JHd(e) IN IF v = "ok" THEN v ELSE a.op \o ":" \o v)
      [] op = "show"      -> JShow(t, a, e.post, e.exc)
      [] op = "axisShow"  -> JAxisShow(t, a, e.post, e.exc)
      [] op = "saveLoad"  -> JSave(a, t, e.post, e.exc, e.ret)
      [] op = "fill"          -> J(e, Fill(e.rk, a.ax, t, a.fw, a.mt, a.lim))
=============================================================================
