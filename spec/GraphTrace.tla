----------------------------- MODULE GraphTrace ------------------------------
(***************************************************************************)
(* Trace validation of real cluster graphs: construction, single messages,   *)
(* complete processing runs (the observed sequence of messages must be a      *)
(* greedy run of Pass actions), queries, and outside interference with the    *)
(* inputs and results.  Judge(e, s) gives the clauses that the event breaks   *)
(* and the next state; where the code deviates the trace continues from the   *)
(* observed state.                                                            *)
(***************************************************************************)
EXTENDS ClusterGraph, Drawing, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, s   \* s: [F |-> input factors, g |-> graph (or None), conv |-> converged tree?]

NoGraph == [k |-> "none"]
Tiny(tol) == RLe(tol, "1/1000000000000")
HasGraph(st) == "cl" \in DOMAIN st.g
When(b, c) == IF b THEN {c} ELSE {}

\* ------------------------------------------------------------- build
EdgeFun(es) == LET idx == [p \in {<<es[i].i, es[i].j>> : i \in DOMAIN es} |-> CHOOSE i \in DOMAIN es : <<es[i].i, es[i].j>> = p]
               IN [p \in DOMAIN idx |-> es[idx[p]].sep]
Shape(fs) == IF fs = <<>> THEN "tab" ELSE fs[1].k
GraphOf(e, F) ==
  LET cl == TLCEval([i \in DOMAIN e.obs.cl |-> e.obs.cl[i]])
      sep == EdgeFun(e.obs.edges)
  IN [kind |-> Shape(F), cl |-> cl, init |-> cl, sep |-> sep, sent |-> [p \in DOMAIN sep |-> None], sp |-> e.sp, ev |-> e.ev]

\* ------------------------------------------------------------- drawings
JudgeFilm(e, st) ==
  IF "frames" \notin DOMAIN e \/ e.st # "ok" \/ ~ HasGraph(st) \/ "draw" \notin DOMAIN st.g THEN {}
  ELSE LET d == st.g.draw
           n == Len(e.msgs)
           \* the last message before convergence need not be shown
           shown == IF n > 0 /\ Len(e.frames) = 6 * (n - 1) /\ Len(e.rec) = n /\ GLe(st.g.kind, e.rec[n], e.tol)
                    THEN SubSeq(e.msgs, 1, n - 1) ELSE e.msgs
       IN When(e.final # Plain(d), "drawing")
          \cup When(e.frames # (IF e.anim THEN Film(d, st.g.ids, shown) ELSE <<>>), "frames")

\* labels: a cluster shows its name, a separation set its variables (in any order)
LabelOf(d, n) == LET k == CHOOSE i \in DOMAIN d.nodes : d.nodes[i] = n IN d.labels[k]
CommaJoin(o) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "," \o b, "", o)
Labelled(d, ids, sep) ==
  /\ \A i \in DOMAIN ids : LabelOf(d, ids[i]) \in {ids[i], ""}
  /\ \A p \in DOMAIN sep : \A n \in SepNodes(d, ids, ids[p[1]], ids[p[2]]) :
       Len(sep[p]) > 5 \/ \E o \in Orders(Range(sep[p])) : LabelOf(d, n) = CommaJoin(o)

\* ---------------------------------------------------------------- plots
\* The gains of a message: at first and after everything that changes the message (or sends it).  They are followed when the
\* graph is drawn.
Track(g, i, j) == \* after the message from i to j
  IF "hist" \notin DOMAIN g THEN g
  ELSE [g EXCEPT !.hist = TLCEval([q \in DOMAIN g.hist |-> IF q = <<i, j>> THEN Append(g.hist[q], "0")
                                                      ELSE IF q[1] = j THEN Append(g.hist[q], Gain(g, q[1], q[2])) ELSE g.hist[q]])]
JudgePlotGain(e, st) ==
  LET g == st.g
      ids == g.ids
      name(p) == ids[p[1]] \o "->" \o ids[p[2]]
      right(c, p) == /\ Len(c.y) = Len(g.hist[p])
                     /\ \A k \in DOMAIN c.y : GNear(g.kind, g.hist[p][k], c.y[k])
                     /\ \A k \in DOMAIN c.x : c.x[k] = RInt(k - 1)
  IN IF "hist" \notin DOMAIN g THEN {}
     ELSE IF e.st # "ok" THEN {"raised"}
     ELSE When(\/ Len(e.res.lines) # Cardinality(DOMAIN g.hist)
               \/ \E p \in DOMAIN g.hist : ~ \E k \in DOMAIN e.res.lines : (e.legend => e.res.lines[k].l = name(p)) /\ right(e.res.lines[k], p)
               \/ e.res.texts # (IF e.legend THEN Cardinality(DOMAIN g.hist) ELSE 0), "plot")
\* the largest gain after every message of the last processing
JudgePlotConv(e, st) ==
  LET rec == st.g.rec
      n == Len(rec)
      inf == {k \in 1 .. n : rec[k] = "inf"}
      tiny == {k \in (1 .. n) \ inf : RLe(rec[k], "1/1000000000000")}
      mask(k) == RDiv(RInt(k - 1), "2")
      line == e.res.lines[1]
      right(k, y) == IF e.log THEN RNear(rec[k], RExp(y), "1/1000000", "0") ELSE RNear(rec[k], y, "1/1000000000", "1/1000000000000")
  IN IF "hist" \notin DOMAIN st.g THEN {}
     ELSE IF e.st # "ok" THEN {"raised"}
     ELSE IF e.log /\ \E k \in tiny : RLt(rec[k], "0") THEN {}
     ELSE IF Len(e.res.lines) # 1 \/ Len(line.y) # 2 * n \/ \E k \in 1 .. (2 * n) : line.x[k] # mask(k) THEN {"plot"}
     ELSE When(\/ \E k \in (1 .. n) \ inf : (~ e.log \/ k \notin tiny) /\ (~ right(k, line.y[2 * k - 1]) \/ ~ right(k, line.y[2 * k]))
               \/ \E k \in inf : ~ IsRat(line.y[2 * k]) \/ line.y[2 * k] # line.y[2 * k - 1]
               \/ \E k \in inf : \E j \in (1 .. n) \ inf : IsRat(line.y[2 * j]) /\ ~ RLt(line.y[2 * j], line.y[2 * k])
               \/ Range(e.res.marked) # UNION {{mask(2 * k - 1), mask(2 * k)} : k \in inf}
               \/ e.res.legend # (inf # {}), "plot")
JudgeSave(e, st) ==
  IF "draw" \notin DOMAIN st.g THEN {}
  ELSE IF e.st # "ok" THEN {"raised"}
  ELSE When(e.saved # <<Plain(st.g.draw)>>, "saved")

\* with nonlinear Gaussians only the structure and the answers after convergence are observed
Nl == INSTANCE NlgOps
InputFactors(e) == IF "defs" \notin DOMAIN e THEN e.fs
  ELSE [i \in DOMAIN e.fs |-> LET d == e.defs[i] IN IF d.op = "" THEN e.fs[i] ELSE Nl!GauAffine(d.A, d.m, d.N, d.vin, d.vout, d.w)]
IsHidden(e) == \E i \in DOMAIN e.obs.cl : e.obs.cl[i].k = "nlg"
JudgeHiddenBuild(e, st) ==
  LET g == GraphOf(e, st.F)
      sym == Symmetric(g) /\ Cardinality(DOMAIN g.sep) = Len(e.obs.edges)
      f == When(Cardinality(Range(e.obs.ids)) # Len(e.obs.ids), "ids")
           \cup When(~ sym, "symmetric") \cup When(~ RunningIntersection(g), "rip")
           \cup When(~ SepsetsWithinScopes(g), "sepset-scope") \cup When(~ SepsetsUnobserved(g), "sepset-evidence")
           \cup When(~ (Len(e.paths) = Cardinality(DOMAIN g.sep) /\ Range(e.paths) = DOMAIN g.sep), "paths")
           \cup When(UNION {Range(st.F[i].v) : i \in DOMAIN st.F} \ Observed(g) # Vars(g) \ Observed(g), "cover")
  IN [f |-> f, s |-> [st EXCEPT !.g = IF f = {} THEN g @@ [hidden |-> TRUE] ELSE NoGraph, !.conv = FALSE]]
JudgeHidden(e, st) ==
  LET g == st.g
      budget == e.iter * Cardinality(Paths(g))
      ample == e.op = "process" /\ Tiny(e.tol) /\ e.iter >= 20 /\ IsForest(g)
      post == FMarg(Posterior("gau", st.F, g.ev, g.sp), e.vars)
  IN CASE e.op = "process" ->
            IF e.st # "ok" THEN [f |-> {"raised"}, s |-> [st EXCEPT !.g = NoGraph]]
            ELSE [f |-> When(Len(e.msgs) > budget, "budget") \cup When(Len(e.rec) # Len(e.msgs) \/ e.cnt # Len(e.msgs), "count"),
                  s |-> [st EXCEPT !.conv = st.conv \/ ample]]
       [] e.op = "pass" -> IF e.st = "ok" THEN [f |-> {}, s |-> st] ELSE [f |-> {"raised"}, s |-> [st EXCEPT !.g = NoGraph]]
       [] e.op = "marg" ->
            IF Holders(g, e.vars) = {} THEN [f |-> IF e.st = "ok" THEN {"accepted"} ELSE When(e.err # "ValueError", "wrong-error"), s |-> st]
            ELSE IF ~ st.conv THEN [f |-> {}, s |-> st]
            ELSE IF e.st # "ok" THEN [f |-> When(~ IsUndef(post), "raised"), s |-> st]
            ELSE [f |-> When(e.res.v # e.vars, "order") \cup When(~ FNearProp(post, e.res), "posterior"), s |-> st]
       [] OTHER -> [f |-> {}, s |-> st]

JudgeBuild(e, st) ==
  IF e.st # "ok" THEN [f |-> {"raised"}, s |-> [st EXCEPT !.g = NoGraph, !.conv = FALSE]]
  ELSE IF IsHidden(e) THEN JudgeHiddenBuild(e, st)
  ELSE LET g == GraphOf(e, st.F)
           kinds == \A i \in DOMAIN g.cl : g.cl[i].k = g.kind
           sym == Symmetric(g) /\ Cardinality(DOMAIN g.sep) = Len(e.obs.edges)
           paths == Len(e.paths) = Cardinality(DOMAIN g.sep) /\ Range(e.paths) = DOMAIN g.sep
           f == When(Cardinality(Range(e.obs.ids)) # Len(e.obs.ids), "ids")
                \cup When(~ sym, "symmetric")
                \cup When(~ RunningIntersection(g), "rip")
                \cup When(~ SepsetsWithinScopes(g), "sepset-scope")
                \cup When(~ SepsetsUnobserved(g), "sepset-evidence")
                \cup When(~ paths, "paths")
                \cup When(~ kinds \/ ~ Faithful(g, st.F), "product")
                \cup When(~ Covers(g, st.F), "cover")
                \cup When(~ Sane(g), "zeros")
                \cup When("draw" \in DOMAIN e /\ sym /\ ~ Drawn(e.draw, e.obs.ids, g.sep), "drawing")
                \cup When("draw" \in DOMAIN e /\ sym /\ Drawn(e.draw, e.obs.ids, g.sep) /\ ~ Labelled(e.draw, e.obs.ids, g.sep), "labels")
           g2 == IF "draw" \in DOMAIN e /\ "drawing" \notin f
                 THEN g @@ [draw |-> e.draw, ids |-> e.obs.ids, rec |-> <<>>, hist |-> TLCEval([p \in DOMAIN g.sep |-> <<Gain(g, p[1], p[2])>>])] ELSE g
           usable == sym /\ paths /\ kinds /\ SepsetsWithinScopes(g)
       IN [f |-> f, s |-> [st EXCEPT !.g = IF usable THEN g2 ELSE NoGraph, !.conv = FALSE]]

\* ------------------------------------------------------------- messages
SameBeliefs(g, h) == \A i \in DOMAIN g.cl : FNear(g.cl[i], h[i])
WithBeliefs(g, bs) == [g EXCEPT !.cl = TLCEval([i \in DOMAIN bs |-> bs[i]])]
KindsOk(g, bs) == Len(bs) = Len(g.cl) /\ \A i \in DOMAIN bs : bs[i].k = g.kind /\ FSameScope(g.cl[i].v, bs[i])
StateClauses(g) == \* of the observed state
  When(~ ZerosKept(g) \/ ~ Sane(g), "zeros")
  \cup When(g.sp.vars = <<>> /\ ~ Reparametrised(g), "reparam")

JudgePass(e, st) ==
  LET g == st.g
      m == Message(g, e.i, e.j)
      mok == FNear(m, e.msg) /\ e.msg.k = g.kind
      n == PassMsg(g, e.i, e.j, IF mok THEN m ELSE e.msg)
  IN IF e.st # "ok" THEN [f |-> {"raised"}, s |-> [st EXCEPT !.g = NoGraph]]
     ELSE IF ~ (e.msg.k = g.kind /\ FSameScope(m.v, e.msg)) THEN [f |-> {"message"}, s |-> [st EXCEPT !.g = NoGraph]]
     ELSE IF ~ KindsOk(g, e.obs) THEN [f |-> {"receiver"}, s |-> [st EXCEPT !.g = NoGraph]]
     ELSE LET o == WithBeliefs(n, e.obs)
              f == When(~ mok, "message")
                   \cup When(~ FNear(n.cl[e.j], e.obs[e.j]), "receiver")
                   \cup When(\E i \in DOMAIN g.cl : i # e.j /\ ~ FNear(g.cl[i], e.obs[i]), "others")
                   \cup StateClauses([o EXCEPT !.sent[<<e.i, e.j>>] = e.msg])
          IN [f |-> f, s |-> [st EXCEPT !.g = Track(IF f = {} THEN n ELSE o, e.i, e.j)]]

JudgeMsg(e, st) ==
  LET m == Message(st.g, e.i, e.j) IN
  [f |-> IF e.st # "ok" THEN {"raised"} ELSE When(~ (e.res.k = st.g.kind /\ FNear(m, e.res)), "message"), s |-> st]

\* ------------------------------------------------------------ processing
GainsFor(g) == [p \in Paths(g) |-> Gain(g, p[1], p[2])]
RECURSIVE Follow(_, _, _, _, _)
\* x: [g, gains, f]; follows the messages from number k
Follow(e, x, k, tol, kind) ==
  IF k > Len(e.msgs) THEN x
  ELSE LET r == e.msgs[k]
           p == <<r.i, r.j>>
           g == x.g
       IN IF p \notin Paths(g) THEN [x EXCEPT !.f = x.f \cup {"message"}]
          ELSE
          LET m == Message(g, r.i, r.j)
              mok == r.p.k = kind /\ FNear(m, r.p)
              mx0 == GMax({x.gains[q] : q \in Paths(g)})
              n == PassMsg(g, r.i, r.j, m)
              gains == [q \in Paths(g) |-> IF q[1] = r.j \/ q = p THEN Gain(n, q[1], q[2]) ELSE x.gains[q]]
              mx == GMax({gains[q] : q \in Paths(g)})
              f == When(~ mok, "message")
                   \cup When(GClearlyAbove(kind, mx0, x.gains[p]), "greedy")
                   \cup When(k <= Len(e.rec) /\ ~ GNear(kind, mx, e.rec[k]), "records")
                   \cup When(k < Len(e.msgs) /\ GClearlyBelow(kind, mx, tol), "stop")
          IN Follow(e, [g |-> Track(n, r.i, r.j), gains |-> gains, f |-> x.f \cup f], k + 1, tol, kind)

JudgeProcess(e, st) ==
  LET g == st.g
      n == Len(e.msgs)
      budget == e.iter * Cardinality(Paths(g))
  IN IF e.st # "ok" THEN [f |-> {"raised"}, s |-> [st EXCEPT !.g = NoGraph]]
     ELSE IF Len(g.cl) = 1 THEN
       LET red == FReduceIn(g.cl[1], g.sp.vars, g.sp.vals)
           ok == Len(e.obs) = 1 /\ e.obs[1].k = g.kind /\ (FNear(g.cl[1], e.obs[1]) \/ FNear(red, e.obs[1]))
       IN IF ok THEN [f |-> When(n # 0 \/ e.cnt # 0 \/ e.rec # <<>>, "count"),
                      s |-> [st EXCEPT !.g.cl = e.obs, !.g.init = IF SameSet(g.cl[1].v, e.obs[1].v) THEN g.init ELSE e.obs,
                                       !.conv = TRUE]]
          ELSE [f |-> {"beliefs"}, s |-> [st EXCEPT !.g = NoGraph]]
     ELSE IF ~ KindsOk(g, e.obs) THEN [f |-> {"beliefs"}, s |-> [st EXCEPT !.g = NoGraph]]
     ELSE LET x == Follow(e, [g |-> g, gains |-> GainsFor(g), f |-> {}], 1, e.tol, g.kind)
              o == WithBeliefs(x.g, e.obs)
              mx == MaxGain(o)
              ample == Tiny(e.tol) /\ e.iter >= 20 /\ IsForest(g)
              f == x.f
                   \cup When(n > budget, "budget")
                   \cup When(n < budget /\ GClearlyAbove(g.kind, mx, e.tol), "early")
                   \cup When(Len(e.rec) # n \/ e.cnt # n, "count")
                   \cup When(~ SameBeliefs(x.g, e.obs), "beliefs")
                   \cup When(ample /\ (GClearlyAbove(g.kind, mx, "0") \/ ~ Calibrated(o)), "converge")
                   \cup StateClauses(o)
          IN [f |-> f, s |-> [st EXCEPT !.g = IF f = {} THEN x.g ELSE o, !.conv = st.conv \/ ample]]

\* --------------------------------------------------------------- queries
JudgeMarg(e, st) ==
  LET g == st.g
      hs == Holders(g, e.vars)
  IN IF hs = {} THEN [f |-> IF e.st = "ok" THEN {"accepted"} ELSE When(e.err # "ValueError", "wrong-error"), s |-> st]
     ELSE IF e.st # "ok" THEN [f |-> When(\A i \in hs : ~ IsUndef(ClusterMarginal(g, i, e.vars)), "raised"), s |-> st]
     ELSE IF e.res.k # g.kind THEN [f |-> {"answer"}, s |-> st]
     ELSE [f |-> When(e.res.v # e.vars, "order")
                 \cup When(~ \E i \in hs : FNear(ClusterMarginal(g, i, e.vars), e.res), "answer")
                 \cup When(~ FSane(e.res) /\ (g.kind = "tab" \/ \A i \in hs : ~ IsUndef(ClusterMarginal(g, i, e.vars))), "zeros")
                 \cup When(st.conv /\ ~ FNearProp(FMarg(Posterior(g.kind, st.F, g.ev, g.sp), e.vars), e.res), "posterior"),
           s |-> st]
JudgeJoint(e, st) ==
  IF st.g.sp.vars # <<>> THEN [f |-> {}, s |-> st]
  ELSE IF e.st # "ok" THEN [f |-> {"raised"}, s |-> st]
  ELSE [f |-> When(e.res.k # st.g.kind \/ ~ FNear(RepresentedJoint(st.g), e.res), "joint"), s |-> st]

Unchanged(e, st) == When(HasGraph(st) /\ e.obs # <<>> /\ (~ KindsOk(st.g, e.obs) \/ ~ SameBeliefs(st.g, e.obs)), "disturbed")

Inputs(e, st) == \* the factors and dictionaries that were passed in are as they were
  When(\E i \in DOMAIN e.chg : ~ (e.chg[i].p.k = st.F[e.chg[i].h].k /\ FNear(st.F[e.chg[i].h], e.chg[i].p)
                                  /\ st.F[e.chg[i].h].v = e.chg[i].p.v), "inputs")
  \cup When(e.argmut, "args")
  \cup When("tw" \in DOMAIN e /\ ~ e.tw, "options") \* the same with other options for debugging and printing

Judge(e, st) ==
  CASE e.op = "factors" -> IF e.st = "ok" THEN [f |-> {}, s |-> [st EXCEPT !.F = InputFactors(e)]] ELSE [f |-> {"raised"}, s |-> st]
    [] e.op = "hang" -> [f |-> {"hang"}, s |-> st]
    [] e.op = "build" -> JudgeBuild(e, st)
    [] e.op = "end" \/ ~ HasGraph(st) -> [f |-> {}, s |-> st]
    [] "hidden" \in DOMAIN st.g -> JudgeHidden(e, st)
    [] e.op = "pass" -> JudgePass(e, st)
    [] e.op = "process" -> LET r == JudgeProcess(e, st)
                               q == IF "rec" \in DOMAIN r.s.g THEN [r EXCEPT !.s.g.rec = e.rec] ELSE r
                           IN [q EXCEPT !.f = q.f \cup JudgeFilm(e, st)]
    [] e.op \in {"plotgain", "plotconv", "save"} ->
         [f |-> Unchanged(e, st) \cup (CASE e.op = "plotgain" -> JudgePlotGain(e, st) [] e.op = "plotconv" -> JudgePlotConv(e, st) [] OTHER -> JudgeSave(e, st)),
          s |-> st]
    [] e.op = "gif" -> [f |-> IF e.st # "ok" THEN {"raised"} ELSE When(e.shown # e.want, "gif"), s |-> st]
    [] e.op \in {"msg", "marg", "joint"} ->
         LET r == CASE e.op = "msg" -> JudgeMsg(e, st) [] e.op = "marg" -> JudgeMarg(e, st) [] OTHER -> JudgeJoint(e, st)
             d == Unchanged(e, st)
         IN [f |-> r.f \cup d, s |-> IF d = {} THEN r.s ELSE [r.s EXCEPT !.g = NoGraph]]
    [] OTHER -> \* "poke": the caller changed its own objects (inputs, dictionaries or results)
         LET d == Unchanged(e, st) IN [f |-> IF d = {} THEN {} ELSE {"shared"}, s |-> IF d = {} THEN st ELSE [st EXCEPT !.g = NoGraph]]

Init == tid \in 1 .. Len(Traces) /\ l = 0 /\ s = [F |-> <<>>, g |-> NoGraph, conv |-> FALSE]
Report(e, f) == IF f = {} THEN TRUE ELSE PrintT(ToJson([fail |-> tid, at |-> l + 1, op |-> e.op, clauses |-> f]))
Step == /\ l < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l + 1]
               j == TLCEval(Judge(e, s))
           IN /\ Report(e, j.f \cup Inputs(e, s))
              /\ s' = j.s
        /\ l' = l + 1
        /\ UNCHANGED tid
Next == Step
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
