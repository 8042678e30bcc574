------------------------------ MODULE GaussLaws ------------------------------
(***************************************************************************)
(* Design level check of the Gaussian algebra: every law is evaluated for   *)
(* all pairs of Gaussians from a small family (all scopes over x, y with z, *)
(* all choices of entries, singular and indefinite matrices included).      *)
(***************************************************************************)
EXTENDS FactorPool

CONSTANTS DIAG, OFF   \* number of values for the entries on and off the diagonal

Diags == SubSeq(<<"1", "0", "5/4", "-1/2", "3">>, 1, DIAG)
Offs == SubSeq(<<"0", "1/2", "-3/4">>, 1, OFF)
Hs == <<"0", "3/2">>
Gs == <<"0", "-1/2">>
Sym(n, d, o) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN d[i] ELSE o]]
Family(S) ==
  UNION {{Gau(v, Sym(Len(v), d, o), h, g) : d \in [1 .. Len(v) -> Range(Diags)], o \in (IF Len(v) < 2 THEN {"0"} ELSE Range(Offs)),
                                            h \in [1 .. Len(v) -> Range(Hs)], g \in Range(Gs)} : v \in S}

VARIABLES A, B, done
Init == A \in Family({<<"x", "y">>, <<"y", "x">>}) /\ B \in Family({<<>>, <<"y">>, <<"z">>, <<"y", "z">>}) /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<A, B>>

Near(a, b) == RNear(a, b, "1/1000000000", "1/1000000000")
Same(S, T) == GauNear(S, T)
AB == GauMul(A, B)
Pt == [x |-> "1/2", y |-> "-3/2", z |-> "2"]
At(G) == GauLogAt(G, G.v, [i \in DOMAIN G.v |-> Pt[G.v[i]]])

MulPointwise == At(AB) = RAdd(At(A), At(B)) /\ At(GauDiv(A, B)) = RSub(At(A), At(B))
MulCommutes == Same(AB, GauMul(B, A)) /\ Same(GauDiv(AB, B), GauExt(A, AB.v)) /\ Same(GauMul(GauDiv(A, B), B), GauExt(A, AB.v))
OrderIrrelevant == \A o \in Orders(Range(A.v)) : Same(GauExt(A, o), A) /\ Same(GauMul(GauExt(A, o), B), AB) /\ At(GauExt(A, o)) = At(A)
\* observing in two steps, and observing then evaluating
ReduceSteps ==
  /\ \A x \in Range(AB.v) : LET r == GauReduce(AB, <<x>>, <<Pt[x]>>) IN At(r) = At(AB)
  /\ Same(GauReduce(GauReduce(A, <<"x">>, <<"2">>), <<"y">>, <<"3">>), GauReduce(A, <<"y", "x">>, <<"3", "2">>))
ReduceDistributes == \A x \in Range(A.v) :
  Same(GauReduce(AB, <<x>>, <<"2">>), GauMul(GauReduce(A, <<x>>, <<"2">>), IF InSeq(x, B.v) THEN GauReduce(B, <<x>>, <<"2">>) ELSE B))
\* integration: the order does not matter, constants factor out, and it agrees with the covariance form
MargSteps == GauProper(A) => /\ Same(GauMarg(GauMarg(A, <<"x">>), <<>>), GauMarg(A, <<>>))
                             /\ Same(GauMarg(GauMarg(A, <<"y">>), <<>>), GauMarg(A, <<>>))
MargDistributes == \A x \in Range(A.v) \ Range(B.v) :
  LET m == GauMarg(A, Without(A.v, <<x>>)) IN ~ IsUndef(m) => Same(GauMarg(AB, Without(AB.v, <<x>>)), GauMul(m, B))
MargIsCovBlock == GauProper(A) =>
  \A x \in Range(A.v) : LET p == Pos(A.v, x) IN
    Same(GauFromCov(<<x>>, <<<<GauCov(A)[p][p]>>>>, <<GauMean(A)[p]>>, GauLogWeight(A)), GauMarg(A, <<x>>))
CovFormIsSame == GauProper(A) => /\ Same(GauFromCov(A.v, GauCov(A), GauMean(A), GauLogWeight(A)), A)
                                 /\ LET n == GauNorm(A) IN Near(GauLogWeight(n), "0") /\ GauCov(n) = GauCov(A) /\ GauMean(n) = GauMean(A)
\* proper means positive definite
ProperIsPosDef == GauProper(A) <=> LET d == Invert(A.K).det IN RLt("0", A.K[1][1]) /\ RLt("0", d)
VacuousUnit == GauFlat(B) => LET p == GauExt(A, Union(A.v, B.v)) IN Same(AB, [p EXCEPT !.g = RAdd(A.g, B.g)])
KLLaws == GauProper(A) =>
  /\ Near(GauKL(A, [A EXCEPT !.g = RAdd(A.g, "2")]), "0") /\ Near(GauKL(A, GauExt(A, <<"y", "x">>)), "0")
  /\ LET q == GauMul(A, Gau(<<"y">>, <<<<"1">>>>, <<"1/2">>, "0")) IN RLt("0", GauKL(A, q)) /\ RLt("0", GauKL(q, A))
EqualityLaw ==
  /\ GauHazy(A) \/ GauEquality(A, GauExt(A, <<"x", "y">>)) = Bool(TRUE)
  /\ (~ GauVacuous(A) /\ ~ GauProper(A)) => GauEquality(A, [A EXCEPT !.g = RAdd(A.g, "1")]) = Bool(FALSE)
  /\ GauEquality(A, B) = Bool(FALSE)
\* the linear Gaussian density: integrates to one over the conditional variable, and shifts and scales
LinearLaw ==
  LET a == A.K[1][2] n == RAdd("1", RMul(A.h[1], A.h[1])) L == GauLinear(<<<<a>>>>, <<<<n>>>>, <<"y">>, <<"w">>)
      r == GauReduce(L, <<"y">>, <<"3">>)
      P == GauFromCov(<<"y">>, <<<<"2">>>>, <<"1/2">>, "-1")
      J == GauMul(L, P)
  IN /\ Same(r, GauFromCov(<<"w">>, <<<<n>>>>, <<RMul(a, "3")>>, "0"))
     /\ Same(GauMarg(J, <<"y">>), P)
     /\ Same(GauMarg(J, <<"w">>), GauFromCov(<<"w">>, <<<<RAdd(n, RMul("2", RMul(a, a)))>>>>, <<RDiv(a, "2")>>, "-1"))
\* mixtures: moment matching keeps the total, the mean and the second moment
MixLaw == (GauProper(A) /\ B.v = <<>>) =>
  LET C == GauFromCov(A.v, <<<<"2", "1">>, <<"1", "2">>>>, <<"1", "-1">>, "1/2")
      M == Mix(A.v, <<A, C>>, 0)
      G == MixMatched(M)
      w == RExp(GauLogWeight(A)) u == RExp("1/2")
  IN /\ RNear(RExp(GauLogWeight(G)), RAdd(w, u), "1/1000000", "0")
     /\ \A i \in 1 .. 2 : RNear(RMul(GauMean(G)[i], RAdd(w, u)), RAdd(RMul(w, GauMean(A)[i]), RMul(u, GauMean(C)[i])), "1/1000000", "1/1000000")
     /\ RNear(RExp(MixLogAt(M, <<"x", "y">>, <<"1", "2">>)), RAdd(RExp(GauLogAt(A, <<"x", "y">>, <<"1", "2">>)), RExp(GauLogAt(C, <<"x", "y">>, <<"1", "2">>))), "1/1000000", "0")
     /\ MixEquality(M, Mix(A.v, <<C, A>>, 0)) = Bool(TRUE)
     /\ MixEquality(M, Mix(A.v, <<A, A>>, 0)) = GauEquality(A, C)
=============================================================================
