---------------------------- MODULE ClusterGraph -----------------------------
(***************************************************************************)
(* Belief update message passing on cluster graphs.                         *)
(*                                                                           *)
(* A graph state is a record                                                  *)
(*   kind   "tab" or "gau"                                                   *)
(*   cl     sequence of cluster beliefs (functions)                           *)
(*   init   the cluster beliefs directly after construction                   *)
(*   sep    function from pairs <<i, j>> (both directions of every edge) to   *)
(*          the separation set (a sequence of variables)                      *)
(*   sent   the latest messages: function from pairs to messages              *)
(*          (None: nothing has been sent)                                     *)
(*   sp     special evidence [vars, vals] (conditioning in messages only)     *)
(* The actions are Pass (one message along one directed edge), which is what  *)
(* graph processing consists of; the construction is described by the         *)
(* conditions on its result (WellFormed, Faithful), because which spanning    *)
(* trees are chosen is left open.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, BigRat, Seqs, Table, Gauss, Factor

None == [k |-> "none"]

\* ------------------------------------------------------------ the model
\* Factors conditioned on the evidence; the represented joint function.
Conditioned(fs, ev) == TLCEval([i \in DOMAIN fs |-> FReduceIn(fs[i], ev.vars, ev.vals)])
ModelJoint(kind, fs, ev) == FProduct(kind, Conditioned(fs, ev))
\* the unnormalised posterior of all unobserved variables
Posterior(kind, fs, ev, sp) == FReduceIn(ModelJoint(kind, fs, ev), sp.vars, sp.vals)

\* ------------------------------------------------------ construction
Edges(g) == {p \in DOMAIN g.sep : p[1] < p[2]}
Observed(g) == Range(g.ev.vars) \cup Range(g.sp.vars)
Scope(g, i) == Range(g.cl[i].v)
Vars(g) == UNION {Scope(g, i) : i \in DOMAIN g.cl}

RECURSIVE Reach(_, _)
Reach(S, E) == LET T == S \cup {p[2] : p \in {q \in E : q[1] \in S}} \cup {p[1] : p \in {q \in E : q[2] \in S}} IN
               IF T = S THEN S ELSE Reach(T, E)
IsTreeOn(S, E) == /\ Cardinality(E) = Cardinality(S) - 1
                  /\ \A i \in S : Reach({i}, E) = S
CarrierEdges(g, x) == {p \in Edges(g) : InSeq(x, g.sep[p])}
Carriers(g, x) == {i \in DOMAIN g.cl : x \in Scope(g, i)}
\* the running intersection property
RunningIntersection(g) == \A x \in Vars(g) \ Observed(g) : IsTreeOn(Carriers(g, x), CarrierEdges(g, x))
SepsetsWithinScopes(g) ==
  \A p \in DOMAIN g.sep : g.sep[p] # <<>> /\ NoDup(g.sep[p]) /\ Range(g.sep[p]) \subseteq Scope(g, p[1]) \cap Scope(g, p[2])
SepsetsUnobserved(g) == \A p \in DOMAIN g.sep : Range(g.sep[p]) \cap Observed(g) = {}
Symmetric(g) == \A p \in DOMAIN g.sep : <<p[2], p[1]>> \in DOMAIN g.sep /\ SameSet(g.sep[p], g.sep[<<p[2], p[1]>>])

\* every given factor is in the model exactly once
Faithful(g, fs) == FNear(ModelJoint(g.kind, fs, g.ev), FProduct(g.kind, g.init))
Covers(g, fs) == UNION {Range(fs[i].v) : i \in DOMAIN fs} \ Range(g.ev.vars) = Vars(g)

\* no cycle at all
IsForest(g) == LET E == Edges(g) IN
  \A p \in E : p[2] \notin Reach({p[1]}, E \ {p})

\* ------------------------------------------------------ message passing
Message(g, i, j) ==
  LET m == FMarg(FReduceIn(g.cl[i], g.sp.vars, g.sp.vals), g.sep[<<i, j>>])
      r == g.sent[<<j, i>>]
  IN FShort(IF r = None THEN m ELSE FCancel(m, r))
Receive(g, i, j, m) ==
  LET b == FMul(g.cl[j], m)
      old == g.sent[<<i, j>>]
  IN FShort(IF old = None THEN b ELSE FCancel(b, old))
PassMsg(g, i, j, m) == [g EXCEPT !.cl[j] = Receive(g, i, j, m), !.sent[<<i, j>>] = m]
Pass(g, i, j) == PassMsg(g, i, j, Message(g, i, j))

\* information gain of a pending message m along i -> j
GainOf(g, i, j, m) == IF g.sent[<<i, j>>] = None THEN FDfv(m) ELSE FKL(g.sent[<<i, j>>], m)
Gain(g, i, j) == GainOf(g, i, j, Message(g, i, j))
Paths(g) == DOMAIN g.sep
\* comparisons of gains ("inf" or a rational), up to rounding; "?" compares as anything
GainSlack == "1/100000000"
SlackOf(kind) == IF kind = "tab" THEN GainSlack ELSE "1/100000"
GLe(kind, a, b) == a = "?" \/ b = "?" \/ b = "inf" \/ (a # "inf" /\ RLe(a, RAdd(RMul(b, "1000001/1000000"), SlackOf(kind))))
GNear(kind, a, b) == GLe(kind, a, b) /\ GLe(kind, b, a)
GClearlyAbove(kind, a, tol) == ~ GLe(kind, a, tol)
GClearlyBelow(kind, a, tol) == a # "?" /\ a # "inf" /\ RLt(RAdd(RMul(a, "1000001/1000000"), SlackOf(kind)), tol)
GMax(S) == IF S = {} THEN "0" ELSE IF "?" \in S THEN "?" ELSE IF "inf" \in S THEN "inf"
           ELSE FoldLeft(RMax, "0", SetToSeq(S))
MaxGain(g) == GMax({Gain(g, p[1], p[2]) : p \in Paths(g)})

\* The representation invariant: the product of the beliefs is the model times all latest messages.
SentProduct(g) == FProduct(g.kind, LET s == SetToSeq({p \in Paths(g) : g.sent[p] # None}) IN [i \in DOMAIN s |-> g.sent[s[i]]])
Reparametrised(g) == FNear(FMul(FProduct(g.kind, g.init), SentProduct(g)), FProduct(g.kind, g.cl))
\* the joint that is represented (where it can be recovered)
RepresentedJoint(g) == FProduct(g.kind, g.init)

\* neighbours agree
Calibrated(g) == \A p \in Edges(g) :
  FNearProp(FMarg(FReduceIn(g.cl[p[1]], g.sp.vars, g.sp.vals), g.sep[p]), FMarg(FReduceIn(g.cl[p[2]], g.sp.vars, g.sp.vals), g.sep[p]))

\* what a cluster reports about some variables
ClusterMarginal(g, i, vars) == FMarg(FReduceIn(g.cl[i], g.sp.vars, g.sp.vals), vars)
Holders(g, vars) == {i \in DOMAIN g.cl : Range(vars) \subseteq Scope(g, i)}

\* impossible assignments of the initial belief stay impossible, everything stays defined
ZerosKept(g) == g.kind = "tab" => \A i \in DOMAIN g.cl :
  /\ SameShape(g.init[i], g.cl[i])
  /\ LET b == TabReorder(g.cl[i], g.init[i].v) IN \A m \in DOMAIN b.t : g.init[i].t[m] = "0" => b.t[m] = "0"
Sane(g) == \A i \in DOMAIN g.cl : FSane(g.cl[i])
=============================================================================
