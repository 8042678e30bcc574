------------------------------- MODULE GraphMC -------------------------------
(***************************************************************************)
(* Design level check of belief update message passing: all schedules of      *)
(* single messages, and all greedy runs, on small graphs.  The operators are   *)
(* those that the traces of the real code are validated against.              *)
(*                                                                           *)
(* MODELS  which structures (see Structures)                                   *)
(* SEEDS   number of different sets of factor tables for each                  *)
(* DEPTH   length of the schedules on cyclic graphs (on trees all schedules of *)
(*         any length are explored: there are finitely many states)            *)
(***************************************************************************)
EXTENDS ClusterGraph

CONSTANTS MODELS, SEEDS, DEPTH, TOLS

VARIABLES g, n, phase, tol, budget
vars == <<g, n, phase, tol, budget>>

\* name -> [scopes, edges: <<i, j, sepset>>, special evidence]
None0 == [vars |-> <<>>, vals |-> <<>>]
Ev1(x, i) == [vars |-> <<x>>, vals |-> <<i>>]
Structures(m) ==
  CASE m = "pair" -> [sc |-> <<<<"a", "b">>, <<"c", "b">>>>, ed |-> << <<1, 2, <<"b">> >> >>, sp |-> None0]
    [] m = "chain" -> [sc |-> <<<<"a", "b">>, <<"c", "b">>, <<"c", "d">>>>, ed |-> << <<1, 2, <<"b">> >>, <<2, 3, <<"c">> >> >>, sp |-> None0]
    [] m = "wide" -> [sc |-> <<<<"a", "b", "c">>, <<"c", "b", "d">>, <<"d">>>>,
                      ed |-> << <<1, 2, <<"c", "b">> >>, <<2, 3, <<"d">> >> >>, sp |-> None0]
    [] m = "star" -> [sc |-> <<<<"a", "b", "c">>, <<"a">>, <<"b", "x">>, <<"c", "y">>>>,
                      ed |-> << <<1, 2, <<"a">> >>, <<1, 3, <<"b">> >>, <<1, 4, <<"c">> >> >>, sp |-> None0]
    [] m = "forest" -> [sc |-> <<<<"a", "b">>, <<"c", "b">>, <<"x", "y">>, <<"y">>>>,
                        ed |-> << <<1, 2, <<"b">> >>, <<3, 4, <<"y">> >> >>, sp |-> None0]
    [] m = "special" -> [sc |-> <<<<"a", "b">>, <<"c", "b">>, <<"c", "d">>>>, ed |-> << <<1, 2, <<"b">> >>, <<2, 3, <<"c">> >> >>,
                         sp |-> Ev1("a", 0)]
    [] m = "special2" -> [sc |-> <<<<"a", "b", "e">>, <<"e", "b", "c">>, <<"c", "d", "e">>>>, ed |-> << <<1, 2, <<"b">> >>, <<2, 3, <<"c">> >> >>,
                          sp |-> Ev1("e", 0)]
    [] m = "loop" -> [sc |-> <<<<"a", "b">>, <<"b", "c">>, <<"c", "a">>>>,
                      ed |-> << <<1, 2, <<"b">> >>, <<2, 3, <<"c">> >>, <<1, 3, <<"a">> >> >>, sp |-> None0]
    [] OTHER -> \* a loop with a variable that runs along only two of the three edges
         [sc |-> <<<<"a", "b", "x">>, <<"b", "c", "x">>, <<"c", "a", "x">>>>,
          ed |-> << <<1, 2, <<"b", "x">> >>, <<2, 3, <<"c">> >>, <<1, 3, <<"x", "a">> >> >>, sp |-> None0]

\* tables: seed 0 has no zeros, the others have some, but a consistent assignment (all variables 0) keeps a positive value
Value(s, i, m) == IF s > 0 /\ m > 1 /\ Hash(<<s, i, m, 5>>, 3) = 0 THEN "0" ELSE RInt(1 + Hash(<<s, i, m>>, 3))
TableFor(s, i, v) == LET k == IProd([j \in DOMAIN v |-> 2]) IN Tab(v, [j \in DOMAIN v |-> 2], TLCEval([m \in 1 .. k |-> Value(s, i, m)]))
GraphFor(m, s) ==
  LET st == Structures(m)
      cl == TLCEval([i \in DOMAIN st.sc |-> TableFor(s, i, st.sc[i])])
      prs == {<<st.ed[k][1], st.ed[k][2]>> : k \in DOMAIN st.ed}
      sepOf(p) == st.ed[CHOOSE k \in DOMAIN st.ed : {st.ed[k][1], st.ed[k][2]} = {p[1], p[2]}][3]
      sep == [p \in prs \cup {<<q[2], q[1]>> : q \in prs} |-> sepOf(p)]
  IN [kind |-> "tab", cl |-> cl, init |-> cl, sep |-> sep, sent |-> [p \in DOMAIN sep |-> None], sp |-> st.sp, ev |-> None0]

Tree == IsForest(g)
Init == /\ \E m \in MODELS, s \in 0 .. (SEEDS - 1) : g = TLCEval(GraphFor(m, s))
        /\ n = 0 /\ tol \in TOLS /\ phase = IF tol = "-" THEN "free" ELSE "greedy"
        /\ budget \in IF tol = "-" THEN {0} ELSE {Cardinality(DOMAIN g.sep), 4 * Cardinality(DOMAIN g.sep)}

\* ------------------------------------------------------- any schedule
PassIJ(i, j) == /\ phase = "free" /\ <<i, j>> \in DOMAIN g.sep
                /\ ~ Tree => n < DEPTH
                /\ g' = TLCEval(Pass(g, i, j))
                /\ n' = IF Tree THEN 0 ELSE n + 1
                /\ UNCHANGED <<phase, tol, budget>>
\* ----------------------------------------------------- a greedy run
Best(p) == GainOf(g, p[1], p[2], Message(g, p[1], p[2])) # "?" /\ ~ GClearlyAbove(g.kind, MaxGain(g), Gain(g, p[1], p[2]))
GreedyPass == /\ phase = "greedy" /\ n < budget
              /\ \E p \in Paths(g) : Best(p) /\ g' = TLCEval(Pass(g, p[1], p[2]))
              /\ n' = n + 1
              /\ phase' = IF GLe(g'.kind, MaxGain(g'), tol) THEN "converged" ELSE "greedy"
              /\ UNCHANGED <<tol, budget>>
GiveUp == phase = "greedy" /\ n = budget /\ phase' = "out" /\ UNCHANGED <<g, n, tol, budget>>
Next == (\E p \in DOMAIN g.sep : PassIJ(p[1], p[2])) \/ GreedyPass \/ GiveUp
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A i \in 1 .. 4, j \in 1 .. 4 : WF_vars(PassIJ(i, j)) 
FairGreedy == Spec /\ WF_vars(GreedyPass) /\ WF_vars(GiveUp)

\* --------------------------------------------------------- what must hold
Structure == RunningIntersection(g) /\ SepsetsWithinScopes(g) /\ SepsetsUnobserved(g) /\ Symmetric(g)
NoZeros == \A i \in DOMAIN g.init : \A m \in DOMAIN g.init[i].t : g.init[i].t[m] # "0"
Repar == g.sp.vars = <<>> => Reparametrised(g)
Zeros == ZerosKept(g) /\ Sane(g)
\* everything that can be sent has been sent and would not change anything
Stable == \A p \in Paths(g) : g.sent[p] # None /\ FNear(g.sent[p], Message(g, p[1], p[2]))
Stability == (phase = "free" /\ Stable) => Calibrated(g)
Post == Posterior(g.kind, g.init, g.ev, g.sp)
Exact == (Tree /\ Stable) =>
  \A i \in DOMAIN g.cl : FNearProp(FMarg(Post, Without(g.cl[i].v, g.sp.vars)), FReduceIn(g.cl[i], g.sp.vars, g.sp.vals))
\* a message does not depend on what came from its receiver
NoEcho == (NoZeros /\ phase = "free" /\ (Tree \/ n < DEPTH)) =>
  \A p \in Paths(g) : FNear(Message(g, p[1], p[2]), Message(Pass(g, p[2], p[1]), p[1], p[2]))
\* sending the same message twice changes nothing
Idempotent == (NoZeros /\ phase = "free" /\ (Tree \/ n < DEPTH)) =>
  \A p \in Paths(g) : LET h == Pass(g, p[1], p[2]) IN \A i \in DOMAIN h.cl : FNear(h.cl[i], Pass(h, p[1], p[2]).cl[i])
\* gains: no gain if and only if nothing new
GainLaw == \A p \in Paths(g) : LET m == Message(g, p[1], p[2]) q == GainOf(g, p[1], p[2], m) IN
  q # "?" => /\ GLe(g.kind, "0", q)
             /\ (q = "0") => (g.sent[p] = None \/ FNearProp(g.sent[p], m))
\* a greedy run that ends early has nothing more to say than the tolerance allows; with tolerance 0 trees are calibrated
\* (around a loop the beliefs approach calibration, where gains vanish faster than differences)
Early == phase = "converged" => GLe(g.kind, MaxGain(g), tol) /\ ((tol = "0" /\ Tree) => Calibrated(g))
Budget == n <= budget \/ phase = "free"
TreeExact == (phase = "converged" /\ tol = "0" /\ Tree) =>
  \A i \in DOMAIN g.cl : FNearProp(FMarg(Post, Without(g.cl[i].v, g.sp.vars)), FReduceIn(g.cl[i], g.sp.vars, g.sp.vals))
\* with a budget of a few rounds, greedy runs on (small) trees always converge
GreedyConverges == (phase = "out" /\ Tree) => budget = Cardinality(DOMAIN g.sep)
\* fair schedules calibrate trees
EventuallyCalibrated == (tol = "-" /\ Tree) ~> [](Stable)
Ends == (phase = "greedy") ~> (phase \in {"converged", "out"})
=============================================================================
