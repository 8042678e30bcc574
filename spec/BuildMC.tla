------------------------------- MODULE BuildMC -------------------------------
(***************************************************************************)
(* Design level check of cluster graph construction: factors are reduced by   *)
(* the evidence, factors may be absorbed by factors with a larger scope, and   *)
(* every unobserved variable gets some spanning tree of the clusters that have *)
(* it.  For all scopes, evidence and choices the result is a graph as          *)
(* ClusterGraph describes it: running intersection, separation sets without    *)
(* observed variables, every factor in the model exactly once.                 *)
(***************************************************************************)
EXTENDS ClusterGraph

CONSTANTS FACTORS, NAMES   \* most factors; the variables

VARIABLES fs, ev, sp, cl, todo, sep, stage
vars == <<fs, ev, sp, cl, todo, sep, stage>>

Listed(S) == SetToSeq(S)
Value(i, m) == IF Hash(<<i, m, 7>>, 5) = 0 THEN "0" ELSE RInt(1 + Hash(<<i, m>>, 5))
TableFor(i, S) == LET v == Listed(S) IN Tab(v, [j \in DOMAIN v |-> 2], TLCEval([m \in 1 .. (2 ^ Len(v)) |-> Value(i, m)]))
\* scopes as multisets: in a fixed order
Rank(S) == (IF "a" \in S THEN 1 ELSE 0) + (IF "b" \in S THEN 2 ELSE 0) + (IF "c" \in S THEN 4 ELSE 0) + (IF "d" \in S THEN 8 ELSE 0)
ScopeSeqs == UNION {{s \in [1 .. n -> (SUBSET NAMES) \ {{}}] : \A i \in 1 .. (n - 1) : Rank(s[i]) <= Rank(s[i + 1])} : n \in 1 .. FACTORS}
Assign(S) == [vars |-> Listed(S), vals |-> [i \in 1 .. Cardinality(S) |-> i % 2]]

Init == \E s \in ScopeSeqs, E \in SUBSET NAMES : \E P \in SUBSET (NAMES \ E) :
  /\ fs = TLCEval([i \in DOMAIN s |-> TableFor(i, s[i])])
  /\ ev = Assign(E) /\ sp = Assign(P)
  /\ cl = TLCEval(Conditioned(fs, ev))
  /\ todo = {} /\ sep = <<>> /\ stage = "absorb"

Absorb(i, j) == /\ stage = "absorb" /\ i # j /\ Range(cl[j].v) \subseteq Range(cl[i].v) /\ ~ SameSet(cl[i].v, cl[j].v)
                /\ cl' = TLCEval(LET b == [cl EXCEPT ![i] = FMul(cl[i], cl[j])] IN [k \in 1 .. (Len(cl) - 1) |-> b[IF k < j THEN k ELSE k + 1]])
                /\ UNCHANGED <<fs, ev, sp, todo, sep, stage>>
Has(x) == {i \in DOMAIN cl : InSeq(x, cl[i].v)}
StartTrees == /\ stage = "absorb" /\ stage' = "trees"
              /\ todo' = (UNION {Range(cl[i].v) : i \in DOMAIN cl}) \ Range(sp.vars)
              /\ UNCHANGED <<fs, ev, sp, cl, sep>>
Links(S) == {p \in S \X S : p[1] < p[2]}
Spanning(S) == {T \in SUBSET Links(S) : IsTreeOn(S, T)}
\* the variables are independent: they are taken in a fixed order
First(S) == CHOOSE x \in S : \A y \in S : Rank({x}) <= Rank({y})
Connect(x) == /\ stage = "trees" /\ todo # {} /\ x = First(todo)
              /\ \E T \in Spanning(Has(x)) :
                   LET both == T \cup {<<p[2], p[1]>> : p \in T} IN
                   sep' = TLCEval([p \in DOMAIN sep \cup both |-> (IF p \in DOMAIN sep THEN sep[p] ELSE <<>>) \o (IF p \in both THEN <<x>> ELSE <<>>)])
              /\ todo' = todo \ {x}
              /\ UNCHANGED <<fs, ev, sp, cl, stage>>
Finish == stage = "trees" /\ todo = {} /\ stage' = "done" /\ UNCHANGED <<fs, ev, sp, cl, todo, sep>>
Next == (\E i, j \in DOMAIN cl : Absorb(i, j)) \/ StartTrees \/ (\E x \in todo : Connect(x)) \/ Finish
Spec == Init /\ [][Next]_vars

Built == [kind |-> "tab", cl |-> cl, init |-> cl, sep |-> sep, sent |-> [p \in DOMAIN sep |-> None], sp |-> sp, ev |-> ev]
AtEnd == stage = "done"
RIP == AtEnd => RunningIntersection(Built)
Sepsets == AtEnd => SepsetsWithinScopes(Built) /\ SepsetsUnobserved(Built) /\ Symmetric(Built)
Model == AtEnd => Faithful(Built, fs) /\ Covers(Built, fs)
Valid == AtEnd => Sane(Built) /\ ZerosKept(Built)
\* conditioning before or after building is the same
EvidenceFirst == AtEnd => FNear(FReduceIn(FProduct("tab", fs), ev.vars, ev.vals), FProduct("tab", cl))
\* unobserved variables connect the clusters that share them
Connected == AtEnd => \A x \in Vars(Built) \ Observed(Built) : \A i, j \in Carriers(Built, x) : j \in Reach({i}, DOMAIN sep)
=============================================================================
