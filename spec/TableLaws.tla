------------------------------ MODULE TableLaws ------------------------------
(***************************************************************************)
(* Design level check of the discrete factor algebra: every law below is     *)
(* evaluated for all tables with the given values over all scopes of the     *)
(* variables x (two values) and y (two values) [and z with one value].       *)
(* The laws are what message passing relies on (and what F01, F03, F07 and   *)
(* F08 say about factors), so they must follow from the definitions that     *)
(* the traces of the real code are compared with.                            *)
(***************************************************************************)
EXTENDS FactorPool

CONSTANTS VALS    \* number of different values, 0..VALS-1

Val3 == {RInt(i) : i \in 0 .. (VALS - 1)}
ScopesA == {<<"x", "y">>, <<"y", "x">>, <<"x">>}
ScopesB == {<<"y">>, <<"y", "z">>, <<"z", "x">>, <<>>}
CardsOf(v) == [i \in DOMAIN v |-> IF v[i] = "z" THEN 1 ELSE 2]
Tables(S) == UNION {{Tab(v, CardsOf(v), t) : t \in [1 .. IProd(CardsOf(v)) -> Val3]} : v \in S}

VARIABLES A, B, done
Init == A \in Tables(ScopesA) /\ B \in Tables(ScopesB) /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<A, B>>

Eq(S, T) == TabEq(S, T)
AB == TabMul(A, B)
Assigns(v) == {f \in [v -> 0 .. 1] : \A x \in v : x = "z" => f[x] = 0}

MulCommutes == Eq(AB, TabMul(B, A))
MulPointwise == \A f \in Assigns(Range(AB.v)) :
  TabAt(AB, AB.v, [i \in DOMAIN AB.v |-> f[AB.v[i]]])
    = RMul(TabAt(A, A.v, [i \in DOMAIN A.v |-> f[A.v[i]]]), TabAt(B, B.v, [i \in DOMAIN B.v |-> f[B.v[i]]]))
OrderIrrelevant == \A o \in Orders(Range(A.v)) :
  /\ Eq(TabReorder(A, o), A) /\ Eq(TabMul(TabReorder(A, o), B), AB)
  /\ TabReorder(A, o).v = o
\* cancelling a factor that was multiplied in restores the original wherever that factor is not zero
CancelRestores == LET r == TabCancel(AB, B) one == TabCancel(B, B) IN Eq(r, TabMul(A, one))
CancelIsQuotient == LET q == TabDiv(AB, B) c == TabCancel(AB, B) IN
  \A i \in DOMAIN q.t : c.t[i] = (IF q.t[i] = "?" THEN "0" ELSE q.t[i])
\* summing out does not depend on the order, and distributes over a product without the variable
MargOrder == \A x \in Range(AB.v) : \A y \in Range(AB.v) \ {x} :
  Eq(TabMarg(TabMarg(AB, Without(AB.v, <<x>>)), Without(AB.v, <<x, y>>)), TabMarg(AB, Without(AB.v, <<y, x>>)))
MargDistributes == \A x \in Range(A.v) \ Range(B.v) :
  LET r == Without(A.v, <<x>>) IN Eq(TabMarg(AB, Without(AB.v, <<x>>)), TabMul(TabMarg(A, r), B))
ReduceDistributes == \A x \in Range(A.v) : \A i \in 0 .. 1 :
  Eq(TabReduce(AB, <<x>>, <<i>>),
     TabMul(TabReduce(A, <<x>>, <<i>>), IF InSeq(x, B.v) THEN TabReduce(B, <<x>>, <<i>>) ELSE B))
WeightIsTotal == LET w == TabWeight(A) IN
  /\ TabMarg(A, <<>>).t = <<w>>
  /\ w # "0" => TabWeight(TabNorm(A)) = "1"
NormScale == TabWeight(A) # "0" => Eq(TabNorm(TabScale(A, "3/7")), TabNorm(A))
KLLaws ==
  LET b == TabMarg(TabMul(B, TabScale(TabUniform(A), "5")), A.v)
      P == TabNorm(A)
      Q == TabNorm(b)
      d == TabKL(P, Q)
  IN (TabWeight(A) # "0" /\ TabWeight(b) # "0") =>
        /\ d = "inf" <=> \E i \in DOMAIN P.t : P.t[i] # "0" /\ Q.t[i] = "0"
        /\ d # "inf" => RLe("-1/1000000000000", d)
        /\ (d # "inf" /\ RLe(d, "1/1000000000000")) <=> Eq(P, Q)
ModeLaw == \A i \in DOMAIN A.t : RLe(A.t[i], TabMax(A))
\* equality of the machine is an equivalence that ignores the order, and different functions are told apart
EqualityLaw ==
  LET at(T) == T @@ [sp |-> FALSE, df |-> "", dx |-> "", nm |-> [i \in DOMAIN T.v |-> <<>>]] IN
  /\ \A o \in Orders(Range(A.v)) : TabEquality(at(A), at(TabReorder(A, o))) = Bool(TRUE)
  /\ \A i \in DOMAIN A.t : TabEquality(at(A), at([A EXCEPT !.t[i] = RAdd(A.t[i], "1")])) = Bool(FALSE)
=============================================================================
