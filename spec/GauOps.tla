------------------------------- MODULE GauOps -------------------------------
(***************************************************************************)
(* The transitions of Gaussian factors, of mixtures of them                  *)
(*   [k |-> "mix", v, cs |-> components, cm |-> approximation method]         *)
(* and of factorised factors                                                  *)
(*   [k |-> "fac", v, fs |-> factors].                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, BigRat, Seqs, Gauss, Outcomes

\* ------------------------------------------------------------- Gaussians
GauFlat(A) == \A i \in DOMAIN A.v : A.h[i] = "0" /\ \A j \in DOMAIN A.v : A.K[i][j] = "0"
\* zero but for rounding: whether that is vacuous is not specified
GauHazy(A) == GauVacuous(A) /\ \E i, j \in DOMAIN A.v : A.K[i][j] # "0"
\* A constant has no integral: what remains of it is a constant, but its value is not specified ("?").
GauMargV(A, keep) ==
  IF A.v # <<>> /\ GauHazy(A) THEN Undefined
  ELSE IF GauFlat(A) THEN Gau(keep, Zero(Len(keep), Len(keep)), Const(Len(keep), "0"), "?") ELSE GauMarg(A, keep)
OrFree(A) == IF IsUndef(A) THEN Free ELSE Val(A)
\* a proper Gaussian with well conditioned precision
GauWell(A) == A.v # <<>> /\ GauProper(A)

\* a relation between two real numbers, lifted to all parameters (canonical and, where it exists, covariance form)
LOCAL SameN(x, y, sc) == RNear(x, y, "0", RMul(sc, "1/1000000000"))
LOCAL FarN(x, y) == ~ RNear(x, y, "1/50", "1/50")
LOCAL SizeM(M) == FoldLeft(RMax, "1", FlattenSeq([i \in DOMAIN M |-> [j \in DOMAIN M[i] |-> RAbs(M[i][j])]]))
LOCAL SizeV(x) == FoldLeft(RMax, "1", [i \in DOMAIN x |-> RAbs(x[i])])
GauAlmost(A, B) == \* B: same variable order
  LET sk == SizeM(A.K) sh == SizeV(A.h) IN
  /\ \A i, j \in DOMAIN A.v : SameN(A.K[i][j], B.K[i][j], sk)
  /\ \A i \in DOMAIN A.v : SameN(A.h[i], B.h[i], sh)
  /\ SameN(A.g, B.g, RMax("1", RAbs(A.g)))
LOCAL FarMats(M, L) == \E i \in DOMAIN M : \E j \in DOMAIN M : FarN(M[i][j], L[i][j])
LOCAL FarVecs(x, y) == \E i \in DOMAIN x : FarN(x[i], y[i])
\* log weights, compared as they are and as weights; weights that are out of the range of numbers say nothing
LOCAL Extreme(x) == RLt("600", RAbs(x))
LOCAL FarW(x, y) == FarN(x, y) /\ (Extreme(x) \/ Extreme(y) \/ FarN(RExp(x), RExp(y)))
GauFar(A, B) ==
  /\ FarMats(A.K, B.K) \/ FarVecs(A.h, B.h) \/ FarN(A.g, B.g)
  /\ (GauProper(A) /\ GauProper(B)) =>
       (FarMats(GauCov(A), GauCov(B)) \/ FarVecs(GauMean(A), GauMean(B)) \/ FarW(GauLogWeight(A), GauLogWeight(B)))
GauEquality(A, B) ==
  IF ~ SameSet(A.v, B.v) THEN Bool(FALSE)
  ELSE IF A.v = <<>> \/ GauHazy(A) \/ GauHazy(B) THEN Free
  ELSE LET b == GauExt(B, A.v) IN
       IF GauVacuous(A) # GauVacuous(B) THEN Bool(FALSE)
       ELSE IF GauAlmost(A, b) THEN Bool(TRUE)
       ELSE IF GauVacuous(A) THEN Free
       ELSE IF GauFar(A, b) THEN Bool(FALSE) ELSE Free

\* Equality within given tolerances of the parameters of either form.
GauEqualityTol(A, B, rt, at) ==
  LET Close(x, y, f) == RLe(RAbs(RSub(x, y)), RMul(f[1], RAdd(at, RMul(rt, IF f[2] THEN RMax(RAbs(x), RAbs(y)) ELSE RMin(RAbs(x), RAbs(y))))))
      Mats(M, L, f) == \A i, j \in DOMAIN M : Close(M[i][j], L[i][j], f)
      Vecs(x, y, f) == \A i \in DOMAIN x : Close(x[i], y[i], f)
      b == TLCEval(GauExt(B, A.v))
      Can(f) == Mats(A.K, b.K, f) /\ Vecs(A.h, b.h, f) /\ Close(A.g, b.g, f)
      Cov(f) == Mats(GauCov(A), GauCov(b), f) /\ Vecs(GauMean(A), GauMean(b), f)
                /\ LET x == GauLogWeight(A) y == GauLogWeight(b) IN
                   IF Extreme(x) \/ Extreme(y) THEN Close(x, y, f)
                   ELSE IF f[2] THEN Close(x, y, f) \/ Close(RExp(x), RExp(y), f)
                   ELSE Close(x, y, f) /\ Close(RExp(x), RExp(y), f)
      near == <<"9/10", FALSE>>
      far == <<"11/10", TRUE>>
  IN
  IF ~ SameSet(A.v, B.v) THEN Bool(FALSE)
  ELSE IF ~ GauWell(A) \/ ~ GauWell(B) \/ A.g = "?" \/ B.g = "?" THEN Free
  ELSE IF Can(near) /\ Cov(near) THEN Bool(TRUE)
  ELSE IF ~ Can(far) /\ ~ Cov(far) THEN Bool(FALSE) ELSE Free

GauDivergence(A, B) ==
  IF Len(A.v) # Len(B.v) THEN Rej({})
  ELSE IF A.v = <<>> \/ GauHazy(A) \/ GauHazy(B) THEN Free
  ELSE IF GauVacuous(A) /\ GauVacuous(B) THEN Num("0")
  ELSE IF GauVacuous(A) \/ GauVacuous(B) THEN Num("inf")
  ELSE IF ~ GauProper(A) \/ ~ GauProper(B) THEN Free
  ELSE IF ~ SameSet(A.v, B.v) THEN Rej({})
  ELSE [o |-> "kl", v |-> RMax(GauKL(A, B), "0")]

ParOutcome(A, what) ==
  CASE what = "prec" -> [o |-> "mat", v |-> A.K]
    [] what = "h" -> [o |-> "vec", v |-> A.h]
    [] what = "g" -> Num(A.g)
    [] ~ GauWell(A) -> Free
    [] what = "cov" -> [o |-> "mat", v |-> GauCov(A)]
    [] what = "mean" -> [o |-> "vec", v |-> GauMean(A)]
    [] what = "lw" -> Num(GauLogWeight(A))
    [] what = "w" -> IF RLt(RAbs(GauLogWeight(A)), "600") THEN Num(RExp(GauLogWeight(A))) ELSE Free
    [] OTHER -> Free

PotOutcome(lp, lg) == IF lg THEN Num(lp) ELSE IF RLt(RAbs(lp), "500") THEN Num(RExp(lp)) ELSE Free

GauOutcome(e, pool) ==
  LET A == pool[e.a]
      B == pool[e.b]
      vs == IF Has(e, "vars") /\ e.vars # <<>> THEN e.vars ELSE A.v
  IN
  CASE e.op \in {"mul", "div", "cancel"} /\ B.k = "tab" -> Rej({})
    [] e.op = "mul" -> IF B.k = "gau" THEN Val(GauMul(A, B)) ELSE Free
    [] e.op \in {"div", "cancel"} -> IF B.k = "gau" THEN Val(GauDiv(A, B)) ELSE Free
    [] e.op = "marg" -> OrFree(GauMargV(A, IF e.keep THEN e.vars ELSE Without(A.v, e.vars)))
    [] e.op = "reduce" -> Val(GauReduce(A, e.vars, e.vals))
    [] e.op \in {"copy", "joint"} -> Val(A)
    [] e.op = "norm" -> IF GauWell(A) THEN Val(GauNorm(A)) ELSE Free
    [] e.op = "par" -> ParOutcome(A, e.what)
    [] e.op = "gpot" -> PotOutcome(GauLogAt(A, vs, e.vals), e.lg)
    [] e.op = "kl" -> IF B.k = "gau" THEN GauDivergence(A, B) ELSE Free
    [] e.op = "dfv" -> IF A.v = <<>> \/ GauHazy(A) THEN Free ELSE Num(IF GauVacuous(A) THEN "0" ELSE "inf")
    [] e.op = "isvac" -> IF A.v = <<>> \/ GauHazy(A) THEN Free ELSE Bool(GauVacuous(A))
    [] e.op = "eq" -> IF B.k = "gau" THEN (IF Has(e, "tol") THEN GauEqualityTol(A, B, e.tol[1], e.tol[2]) ELSE GauEquality(A, B))
                        ELSE IF B.k \in {"tab", "mix"} THEN Rej({}) ELSE Free
    [] e.op = "ne" -> IF B.k = "gau" THEN Negate(GauEquality(A, B)) ELSE Free
    [] e.op = "sample" -> IF GauWell(A) THEN [o |-> "sample", mean |-> GauMean(A), cov |-> GauCov(A)] ELSE Free
    [] e.op = "sigma" -> IF GauWell(A) THEN [o |-> "sigma", v |-> A] ELSE Free
    [] OTHER -> Free

\* --------------------------------------------------------------- mixtures
Mix(v, cs, cm) == [k |-> "mix", v |-> v, cs |-> cs, cm |-> cm]
MixOf(A, Op(_)) == \* componentwise
  LET cs == TLCEval([i \in DOMAIN A.cs |-> Op(A.cs[i])]) IN
  IF \E i \in DOMAIN cs : IsUndef(cs[i]) THEN Free ELSE Val(Mix(cs[1].v, cs, A.cm))
MixMul(A, bs) ==
  LET cs == TLCEval([i \in 1 .. (Len(A.cs) * Len(bs)) |-> GauMul(A.cs[1 + ((i - 1) \div Len(bs))], bs[1 + ((i - 1) % Len(bs))])]) IN
  Val(Mix(cs[1].v, cs, A.cm))
MixWell(A) == \A i \in DOMAIN A.cs : GauWell(A.cs[i])
LOCAL LWs(A) == TLCEval([i \in DOMAIN A.cs |-> GauLogWeight(A.cs[i])])
LOCAL Top(s) == FoldLeft(RMax, s[1], s)
LogSumExp(s) == LET m == Top(s) IN RAdd(m, RLn(RSum([i \in DOMAIN s |-> RExp(RMax("-700", RSub(s[i], m)))])))
MixLogWeight(A) == LogSumExp(LWs(A))
MixLogAt(A, vars, vals) == LogSumExp(TLCEval([i \in DOMAIN A.cs |-> GauLogAt(A.cs[i], vars, vals)]))
MixMoments(A) == \* [mean, cov, lw] in the variable order A.v
  LET cs == TLCEval([i \in DOMAIN A.cs |-> GauExt(A.cs[i], A.v)])
      lw == LWs(A)
      m == Top(lw)
      w == TLCEval([i \in DOMAIN lw |-> RExp(RMax("-700", RSub(lw[i], m)))])
      W == RSum(w)
      p == TLCEval([i \in DOMAIN w |-> RShort(RDiv(w[i], W))])
      ms == TLCEval([i \in DOMAIN cs |-> GauMean(cs[i])])
      Ss == TLCEval([i \in DOMAIN cs |-> GauCov(cs[i])])
      mu == TLCEval([a \in DOMAIN A.v |-> RShort(RSum([i \in DOMAIN cs |-> RMul(p[i], ms[i][a])]))])
      S == TLCEval([a \in DOMAIN A.v |-> [b \in DOMAIN A.v |->
             RShort(RSum([i \in DOMAIN cs |-> RMul(p[i], RAdd(Ss[i][a][b], RMul(RSub(ms[i][a], mu[a]), RSub(ms[i][b], mu[b]))))]))]])
  IN [mean |-> mu, cov |-> S, lw |-> RAdd(m, RLn(W))]
MixMatched(A) == LET q == MixMoments(A) IN GauFromCov(A.v, q.cov, q.mean, q.lw)

\* a one to one correspondence of the components under Rel
LOCAL Matching(Rel(_, _), as, bs) ==
  /\ Len(as) = Len(bs)
  /\ LET M == TLCEval([i \in DOMAIN as |-> {j \in DOMAIN bs : Rel(as[i], bs[j])}]) IN
     \E f \in {g \in [DOMAIN as -> DOMAIN bs] : \A i, j \in DOMAIN as : i # j => g[i] # g[j]} : \A i \in DOMAIN as : f[i] \in M[i]
LOCAL EqIs(A, B, x) == LET o == GauEquality(A, B) IN o.o = "bool" /\ o.v = x
MixEquality(A, B) ==
  IF Len(A.cs) # Len(B.cs) THEN Bool(FALSE)
  ELSE IF Matching(LAMBDA x, y : EqIs(x, y, TRUE), A.cs, B.cs) THEN Bool(TRUE)
  ELSE IF ~ Matching(LAMBDA x, y : ~ EqIs(x, y, FALSE), A.cs, B.cs) THEN Bool(FALSE)
  ELSE Free

(* Quotients by mixtures of several components are approximations, unless all components of the divisor are multiples of *)
(* one function.  Method 1: Gaussians at modes of the quotient that agree with it there up to the second derivative of   *)
(* the logarithm (Laplace).  Method 2: for every component a of the numerator, the reciprocal of the moment matched      *)
(* Gaussian of the components b/a, which are reciprocals of Gaussians.                                                    *)
LOCAL Quotients(a, bs) == [j \in DOMAIN bs |-> GauExt(GauDiv(a, bs[j]), Union(a.v, bs[j].v))]
LOCAL Peaked(A, B) == /\ \A j \in DOMAIN B.cs : Range(B.cs[j].v) \subseteq Range(A.v)
                      /\ \A i \in DOMAIN A.cs : LET q == Quotients(A.cs[i], B.cs) IN \A j \in DOMAIN q : GauWell(q[j])
LOCAL Reciprocal(a, bs) ==
  LET q == TLCEval(LET u == Quotients(a, bs) IN [j \in DOMAIN u |-> GauExt(u[j], a.v)])
      n == Len(a.v)
      inv == TLCEval([j \in DOMAIN q |-> Invert(q[j].K)])
      ms == TLCEval([j \in DOMAIN q |-> MatVec(inv[j].inv, q[j].h)])
      area(det) == RLn(RDiv(FoldLeft(LAMBDA x, y : RMul(x, TwoPi), "1", a.v), det))     \* log det (2 pi K^-1)
      lw == TLCEval([j \in DOMAIN q |-> RSub(area(inv[j].det), GauLogWeight(q[j]))])
      m == Top(lw)
      w == TLCEval([j \in DOMAIN lw |-> RExp(RMax("-700", RSub(lw[j], m)))])
      W == RSum(w)
      p == TLCEval([j \in DOMAIN w |-> RShort(RDiv(w[j], W))])
      mu == TLCEval([x \in 1 .. n |-> RShort(RSum([j \in DOMAIN q |-> RMul(p[j], ms[j][x])]))])
      \* minus the covariance of the sum of the b/a
      S == TLCEval([x \in 1 .. n |-> [y \in 1 .. n |->
             RShort(RSum([j \in DOMAIN q |-> RMul(p[j], RSub(inv[j].inv[x][y], RMul(RSub(ms[j][x], mu[x]), RSub(ms[j][y], mu[y]))))]))]])
      r == Invert(S)
      h == MatVec(r.inv, mu)
  IN IF ~ r.ok \/ RLe(r.det, "0") THEN Undefined
     ELSE LET g == RSub(RAdd(m, RLn(W)), RAdd(Half(area(RDiv("1", r.det))), Half(RNeg(Dot(mu, h)))))
              c == Gau(a.v, r.inv, h, RNeg(g))
          IN IF GauWell(c) THEN c ELSE Undefined
MixByReciprocals(A, B) ==
  LET cs == TLCEval([i \in DOMAIN A.cs |-> Reciprocal(A.cs[i], B.cs)]) IN
  IF \E i \in DOMAIN cs : IsUndef(cs[i]) THEN Free ELSE Val(Mix(A.v, cs, A.cm))
\* logarithm, gradient and second derivative of the logarithm of a mixture at x
LOCAL Local(cs, x) ==
  LET n == Len(x)
      ls == TLCEval([i \in DOMAIN cs |-> GauLogAt(cs[i], cs[i].v, x)])
      total == LogSumExp(ls)
      r == TLCEval([i \in DOMAIN cs |-> RShort(RExp(RMax("-700", RSub(ls[i], total))))])
      s == TLCEval([i \in DOMAIN cs |-> VecSub(cs[i].h, MatVec(cs[i].K, x))])
      g == TLCEval([a \in 1 .. n |-> RShort(RSum([i \in DOMAIN cs |-> RMul(r[i], s[i][a])]))])
      H == TLCEval([a \in 1 .. n |-> [b \in 1 .. n |->
             RShort(RSub(RSum([i \in DOMAIN cs |-> RMul(r[i], RSub(RMul(s[i][a], s[i][b]), cs[i].K[a][b]))]), RMul(g[a], g[b])))]])
  IN [log |-> total, g |-> g, H |-> H]
LOCAL SameUpToScale(B) == \A j \in DOMAIN B.cs : GauNearUpToScale(B.cs[1], B.cs[j])
\* far apart on the line
LOCAL Isolated(A, B) ==
  /\ Len(A.v) = 1 /\ SameUpToScale(B)
  /\ LET q == TLCEval([i \in DOMAIN A.cs |-> GauDiv(A.cs[i], B.cs[1])]) IN
     \A i, j \in DOMAIN q : i = j \/ LET d == RSub(GauMean(q[i])[1], GauMean(q[j])[1]) IN
                                       RLt(RMul("100", RMax(GauCov(q[i])[1][1], GauCov(q[j])[1][1])), RMul(d, d))
LaplaceOk(A, B, O) ==
  /\ O.k = "mix" /\ O.cm = A.cm /\ SameSet(O.v, A.v) /\ Len(O.cs) >= 1 /\ Len(O.cs) <= Len(A.cs)
  /\ Isolated(A, B) => Len(O.cs) = Len(A.cs)
  /\ \A t \in DOMAIN O.cs :
       /\ GauDefined(O.cs[t]) /\ GauWell(O.cs[t]) /\ SameSet(O.cs[t].v, A.v)
       /\ LET c == TLCEval(GauExt(O.cs[t], A.v))
              x == TLCEval(GauMean(c))
              as == TLCEval([i \in DOMAIN A.cs |-> GauExt(A.cs[i], A.v)])
              bs == TLCEval([i \in DOMAIN B.cs |-> GauExt(B.cs[i], A.v)])
              u == TLCEval(Local(as, x))
              d == TLCEval(Local(bs, x))
              sc == SizeM(c.K)
          IN /\ \A i \in DOMAIN x : RNear(u.g[i], d.g[i], "0", RMul(sc, "1/1000"))
             /\ \A i, j \in DOMAIN x : RNear(c.K[i][j], RSub(d.H[i][j], u.H[i][j]), "0", RMul(sc, "1/500"))
             /\ RNear(RSub(u.log, d.log), GauLogAt(c, A.v, x), "1/10000", "1/10000")
MixQuotient(A, B) ==
  IF ~ MixWell(B) \/ ~ Peaked(A, B) THEN Free
  ELSE IF A.cm = 2 THEN MixByReciprocals(A, B)
  ELSE IF SameSet(A.v, B.v) THEN [o |-> "laplace", v |-> A, w |-> B] ELSE Free

MixOutcome(e, pool) ==
  LET A == pool[e.a]
      B == pool[e.b]
      vs == IF Has(e, "vars") /\ e.vars # <<>> THEN e.vars ELSE A.v
      single(X) == IF X.k = "gau" THEN X ELSE IF Len(X.cs) = 1 THEN X.cs[1]
                   ELSE IF A.cm = 0 /\ MixWell(X) THEN MixMatched(X) ELSE Undefined
  IN
  CASE e.op = "mul" -> IF B.k = "gau" THEN MixMul(A, <<B>>) ELSE IF B.k = "mix" THEN MixMul(A, B.cs) ELSE Rej({})
    [] e.op \in {"div", "cancel"} ->
         IF B.k \notin {"gau", "mix"} THEN Rej({})
         ELSE IF A.cm # 0 /\ B.k = "mix" /\ Len(B.cs) > 1 THEN MixQuotient(A, B)
         ELSE LET d == single(B) IN IF IsUndef(d) THEN Free ELSE MixOf(A, LAMBDA c : GauDiv(c, d))
    [] e.op = "marg" -> MixOf(A, LAMBDA c : GauMargV(c, IF e.keep THEN e.vars ELSE Without(A.v, e.vars)))
    [] e.op = "reduce" -> MixOf(A, LAMBDA c : GauReduce(c, e.vars, e.vals))
    [] e.op = "copy" -> Val(A)
    [] e.op = "norm" -> IF ~ MixWell(A) THEN Free
                        ELSE LET w == MixLogWeight(A) IN MixOf(A, LAMBDA c : [c EXCEPT !.g = RSub(c.g, w)])
    [] e.op = "mm" -> IF MixWell(A) THEN Val(MixMatched(A)) ELSE Free
    [] e.op = "par" -> IF e.what = "lw" /\ MixWell(A) THEN Num(MixLogWeight(A)) ELSE Free
    [] e.op = "gpot" -> PotOutcome(MixLogAt(A, vs, e.vals), e.lg)
    [] e.op = "isvac" -> IF A.v = <<>> \/ \E i \in DOMAIN A.cs : GauHazy(A.cs[i]) THEN Free
                         ELSE Bool(\A i \in DOMAIN A.cs : GauVacuous(A.cs[i]))
    [] e.op = "eq" -> IF B.k = "mix" THEN MixEquality(A, B) ELSE Rej({"TypeError"})
    [] e.op = "ne" -> IF B.k = "mix" THEN Negate(MixEquality(A, B)) ELSE Rej({"TypeError"})
    [] e.op = "argmax" -> IF MixWell(A) /\ Len(A.v) <= 2 THEN [o |-> "peak", v |-> A] ELSE Free
    [] e.op = "sample" -> IF MixWell(A) THEN LET q == MixMoments(A) IN [o |-> "sample", mean |-> q.mean, cov |-> q.cov] ELSE Free
    [] OTHER -> Free
MixSame(E, O) == \* one to one correspondence of the components
  /\ Len(E.cs) = Len(O.cs)
  /\ \/ \A i \in DOMAIN E.cs : GauNear(E.cs[i], O.cs[i])
     \/ (Len(E.cs) <= 6 /\ Matching(GauNear, E.cs, O.cs))

\* ------------------------------------------------------ factorised factors
FacJoint(X) == IF X.k = "fac" THEN FoldLeft(LAMBDA a, b : GauMul(a, b), GauOne, X.fs) ELSE X
LOCAL FacOf(A) == [k |-> "fac", v |-> A.v, fs |-> <<A>>]
LOCAL FacOr(A) == IF IsUndef(A) THEN Free ELSE Val(FacOf(A))
FacOutcome(e, pool) ==
  LET A == pool[e.a]
      B == pool[e.b]
      J == FacJoint(A)
      flat == \E i \in DOMAIN A.fs : GauVacuous(A.fs[i])
      hazy == J.v = <<>> \/ GauHazy(J) \/ \E i \in DOMAIN A.fs : A.fs[i].v = <<>> \/ GauHazy(A.fs[i])
      allflat == \A i \in DOMAIN A.fs : GauVacuous(A.fs[i])
      inscope(X) == \E i \in DOMAIN A.fs : \A x \in Range(X.v) : InSeq(x, A.fs[i].v)
      keep == IF e.keep THEN e.vars ELSE Without(J.v, e.vars)
      vs == IF Has(e, "vars") /\ e.vars # <<>> THEN e.vars ELSE A.v
  IN
  CASE e.op = "mul" -> IF B.k = "gau" THEN FacOr(GauMul(J, B)) ELSE Free
    [] e.op \in {"div", "cancel"} -> IF B.k = "gau" /\ ~ GauVacuous(B) /\ inscope(B) THEN FacOr(GauDiv(J, B)) ELSE Free
    \* (a variable on which the function does not depend may have left the scope before)
    [] e.op \in {"reduce", "marg"} /\ ~ (Range(e.vars) \subseteq Range(J.v)) -> Free
    [] e.op = "reduce" -> FacOr(GauReduce(J, e.vars, e.vals))
    [] e.op = "marg" -> IF flat \/ keep = <<>> THEN Free ELSE FacOr(GauMarg(J, keep))
    [] e.op = "norm" -> IF flat \/ ~ GauWell(J) THEN Free ELSE FacOr(GauNorm(J))
    [] e.op = "copy" -> Val(A)
    [] e.op = "joint" -> Val(J)
    [] e.op = "par" -> IF e.what \in {"cov", "mean"} THEN ParOutcome(IF Has(A, "j") THEN A.j ELSE J, e.what) ELSE Free
    [] e.op = "kl" -> IF B.k = "fac" THEN GauDivergence(J, FacJoint(B)) ELSE Free
    [] e.op = "dfv" -> IF hazy THEN Free ELSE Num(IF GauVacuous(J) THEN "0" ELSE "inf")
    [] e.op = "isvac" -> IF hazy \/ flat # allflat THEN Free ELSE Bool(allflat)
    [] e.op = "eq" -> IF B.k \in {"gau", "fac"} THEN GauEquality(J, FacJoint(B)) ELSE Free
    [] e.op = "ne" -> IF B.k \in {"gau", "fac"} THEN Negate(GauEquality(J, FacJoint(B))) ELSE Free
    [] OTHER -> Free
\* The same function; variables on which it does not depend may be missing.
FacSame(E, O) ==
  LET e == FacJoint(E)
      o == FacJoint(O)
      v == Union(e.v, o.v)
  IN /\ NoDup(O.v) /\ SameSet(O.v, o.v) /\ \A x \in Range(O.v) : InSeq(x, e.v)
     /\ GauNear(GauExt(e, v), GauExt(o, v))
     /\ O.k = "fac" => GauNear(o, O.j)

\* ----------------------------------------------------------- constructors
LOCAL SameOrder(hs, pool) == \A i \in DOMAIN hs : pool[hs[i]].v = pool[hs[1]].v
GauNewOutcome(e, pool) ==
  CASE e.op = "newgau" -> Val(IF e.form = "can" THEN Gau(e.v, e.M, e.m, e.w) ELSE GauFromCov(e.v, e.M, e.m, e.w))
    [] e.op = "newvac" -> Val(Gau(e.v, Zero(Len(e.v), Len(e.v)), Const(Len(e.v), "0"), e.w))
    [] e.op = "newlin" -> Val(GauLinear(e.A, e.N, e.vin, e.vout))
    [] e.op = "newmix" -> IF \E i \in DOMAIN e.hs : pool[e.hs[i]].k # "gau" THEN Free
                          ELSE IF ~ SameOrder(e.hs, pool) THEN Rej({"ValueError"})
                          ELSE Val(Mix(pool[e.hs[1]].v, [i \in DOMAIN e.hs |-> pool[e.hs[i]]], e.cm))
    [] e.op = "newskm" -> Val(Mix(e.v, [i \in DOMAIN e.cs |-> GauFromCov(e.v, e.cs[i].M, e.cs[i].m, RLn(e.cs[i].w))], 0))
    [] e.op = "newfac" -> IF \E i \in DOMAIN e.hs : pool[e.hs[i]].k # "gau" THEN Free
                          ELSE LET fs == [i \in DOMAIN e.hs |-> pool[e.hs[i]]] IN
                               Val([k |-> "fac", v |-> FoldLeft(LAMBDA a, b : Union(a, b.v), <<>>, fs), fs |-> fs])
    [] OTHER -> Free

\* ------------------------------------------------------------ observations
\* both forms of an observed Gaussian describe the same function
LOCAL GauFormsAgree(O) ==
  (O.k = "gau" /\ "S" \in DOMAIN O /\ GauDefined(O) /\ GauWell(O)) =>
    /\ Len(O.S) = Len(O.v) /\ Len(O.m) = Len(O.v) /\ IsRat(O.lw)
    /\ \A i \in DOMAIN O.v : IsRat(O.m[i]) /\ \A j \in DOMAIN O.v : IsRat(O.S[i][j])
    /\ MatNear(GauCov(O), O.S) /\ VecNear(GauMean(O), O.m) /\ NumNear(GauLogWeight(O), O.lw)

FormsAgree(O) ==
  CASE O.k = "gau" -> GauFormsAgree(O)
    [] O.k = "mix" -> \A i \in DOMAIN O.cs : GauFormsAgree(O.cs[i])
    [] O.k = "fac" -> \A i \in DOMAIN O.fs : GauFormsAgree(O.fs[i])
    [] O.k = "nlg" -> O.j.k = "gau" => GauFormsAgree(O.j)
    [] OTHER -> TRUE

LOCAL NumClose(e, o) == IF IsRat(e) THEN (IsRat(o) /\ RNear(e, o, "1/1000000", "1/1000000000")) ELSE (e = "?" \/ e = o)
LOCAL MatClose(E, O) == Len(E) = Len(O) /\ (\A i \in DOMAIN E : Len(E[i]) = Len(O[i])) /\ MatNear(E, O)
LOCAL VecClose(E, O) == Len(E) = Len(O) /\ VecNear(E, O)
LOCAL Sq(x) == RMul(x, x)
\* estimates from n independent samples: within six standard deviations
SampleClose(o, r) ==
  /\ r.n > 0 /\ Len(r.mean) = Len(o.mean)
  /\ \A i \in DOMAIN o.mean : IsRat(r.mean[i]) /\ RLe(RMul(Sq(RSub(r.mean[i], o.mean[i])), RInt(r.n)), RMul("36", o.cov[i][i]))
  /\ \A i, j \in DOMAIN o.mean :
       RLe(RMul(Sq(RSub(r.cov[i][j], o.cov[i][j])), RInt(r.n)),
           RMul("100", RAdd(RMul(o.cov[i][i], o.cov[j][j]), Sq(o.cov[i][j]))))
\* no component has a larger value at its mean than the mixture at the answer
PeakClose(A, r) ==
  /\ Len(r) = Len(A.v) /\ \A i \in DOMAIN r : IsRat(r[i])
  /\ LET top == MixLogAt(A, A.v, r) IN
     \A i \in DOMAIN A.cs : RLe(MixLogAt(A, A.cs[i].v, GauMean(A.cs[i])), RAdd(top, "1/100000"))
(* Sigma points: columns of equal weight that have the mean and the           *)
(* covariance of the Gaussian.                                                *)
LOCAL Columns(P) == Len(P[1])
SigmaMean(P) == TLCEval([i \in DOMAIN P |-> RDiv(RSum(P[i]), RInt(Columns(P)))])
SigmaCov(P) ==
  LET mu == SigmaMean(P) n == RInt(Columns(P)) IN
  TLCEval([i \in DOMAIN P |-> [j \in DOMAIN P |->
    RDiv(RSum([c \in 1 .. Columns(P) |-> RMul(RSub(P[i][c], mu[i]), RSub(P[j][c], mu[j]))]), n)]])
SigmaOk(A, P) ==
  /\ Len(P) = Len(A.v) /\ \A i \in DOMAIN P : Len(P[i]) = 2 * Len(A.v) + 1 /\ \A c \in DOMAIN P[i] : IsRat(P[i][c])
  /\ VecNear(GauMean(A), SigmaMean(P)) /\ MatNear(GauCov(A), SigmaCov(P))
GauAnswer(o, r) ==
  CASE o.o = "num" -> NumClose(o.v, r)
    [] o.o = "kl" -> IsRat(r) /\ (RNear(o.v, r, "1/100000", "1/1000000") \/ (r = "0" /\ RLt(o.v, "1/1000")))
    [] o.o = "mat" -> MatClose(o.v, r)
    [] o.o = "vec" -> VecClose(o.v, r)
    [] o.o = "sample" -> SampleClose(o, r)
    [] o.o = "peak" -> PeakClose(o.v, r)
    [] o.o = "sigma" -> SigmaOk(o.v, r)
    [] OTHER -> FALSE
=============================================================================
