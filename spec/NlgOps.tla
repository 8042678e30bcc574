------------------------------- MODULE NlgOps --------------------------------
(***************************************************************************)
(* Nonlinear Gaussian factors whose transform is affine, mixtures of them    *)
(* and templates.                                                            *)
(*   [k |-> "nlg", v |-> vin \o vout, vin, vout, A, c, N, w, cf, uf, ov, ox]  *)
(* is the density  N(out | A in + c, N) exp(w)  together with the pieces that *)
(* the real object records: cf and uf are the products of the Gaussians over  *)
(* conditioning and conditional variables that it absorbed, ov and ox the     *)
(* observed variables and values.  What it represents is their exact product  *)
(* (NlgJoint), as soon as its conditioning variables are determined.          *)
(*   [k |-> "nlm", v, ns |-> nonlinear Gaussians, split |-> BOOLEAN]          *)
(* is the sum of these.                                                       *)
(*   [k |-> "tpl", v |-> <<>>, tv, tw, par] is a template: names are sequences *)
(* of pieces [s |-> text] or [f |-> field], and par is the constructor        *)
(* command of the factors that are made from it.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, BigRat, Seqs, Gauss, Outcomes, GauOps

\* -------------------------------------------------------------- densities
GauAffine(Am, c, N, vin, vout, w) ==
  LET L == GauLinear(Am, N, vin, vout)
      n == Len(vin)
      P == Invert(N).inv
      Pc == MatVec(P, c)
      AtPc == MatVec(Transp(Am, n), Pc)
  IN Gau(L.v, L.K, TLCEval([i \in DOMAIN L.v |-> IF i <= n THEN RNeg(AtPc[i]) ELSE Pc[i - n]]),
         RAdd(w, RSub(L.g, Half(Dot(c, Pc)))))
LOCAL Seen(X, A) == SelectSeq(X.ov, LAMBDA x : InSeq(x, A.v))
LOCAL Conditioned(X, A) == LET s == Seen(X, A) IN GauReduce(A, s, Pick(X.ov, X.ox, s))
NlgCf(X) == Conditioned(X, X.cf)
NlgKnown(X) == LET d == IF GauVacuous(X.cf) THEN {} ELSE Range(X.cf.v) IN Range(X.vin) \subseteq d \cup Range(X.ov)
NlgJoint(X) ==
  IF NlgKnown(X) THEN Conditioned(X, GauMul(GauMul(GauAffine(X.A, X.c, X.N, X.vin, X.vout, X.w), X.cf), X.uf))
  ELSE Gau(X.v, Zero(Len(X.v), Len(X.v)), Const(Len(X.v), "0"), "0")
\* the states in which floating point numbers can represent everything
NlgOk(X) ==
  /\ LET r == NlgCf(X) IN
     \/ (GauVacuous(X.cf) /\ GauFlat(X.cf) /\ X.cf.g = "0")
     \/ r.v = <<>> \/ GauWell(r)
  /\ ~ GauHazy(X.cf) /\ (X.uf.v = <<>> \/ (~ GauHazy(X.uf) /\ (GauVacuous(X.uf) => GauFlat(X.uf))))
  /\ ~ GauHazy(NlgJoint(X))

LOCAL Nothing(B) == B.v = <<>> \/ GauVacuous(B)
LOCAL ZeroGau(v) == Gau(v, Zero(Len(v), Len(v)), Const(Len(v), "0"), "?")
LOCAL Inside(B, vs) == \A x \in Range(B.v) : InSeq(x, vs)
NlgMul(A, B) ==
  IF Nothing(B) THEN (IF B.v # <<>> /\ GauFlat(B) /\ B.g = "0" THEN Val(A) ELSE Free)
  ELSE IF Inside(B, A.vout) THEN Val([A EXCEPT !.uf = GauMul(A.uf, B)])
  ELSE IF Inside(B, A.vin) THEN Val([A EXCEPT !.cf = GauMul(A.cf, B)])
  ELSE Rej({"ValueError"})
NlgDiv(A, B) ==
  IF Nothing(B) THEN (IF B.v # <<>> /\ GauFlat(B) /\ B.g = "0" THEN Val(A) ELSE Free)
  ELSE IF Inside(B, A.vout) THEN (IF Inside(B, A.uf.v) THEN Val([A EXCEPT !.uf = GauDiv(A.uf, B)]) ELSE Free)
  ELSE IF Inside(B, A.vin) THEN (IF Inside(B, A.cf.v) THEN Val([A EXCEPT !.cf = GauDiv(A.cf, B)]) ELSE Free)
  ELSE Rej({"ValueError"})
\* until the conditioning variables are determined, a marginal is that of the piece that covers it, or vacuous
NlgMarg(A, keep) ==
  LET J == NlgJoint(A) IN
  IF NlgKnown(A) THEN (IF Range(keep) \subseteq Range(J.v) THEN GauMargV(J, keep) ELSE Undefined)
  ELSE IF \E P \in {A.cf, A.uf} : Range(keep) \subseteq Range(P.v) THEN
    (IF A.ov # <<>> \/ keep = <<>> THEN Undefined
     ELSE LET r == GauMargV(IF Range(keep) \subseteq Range(A.cf.v) THEN A.cf ELSE A.uf, keep) IN
          IF IsUndef(r) THEN r ELSE [r EXCEPT !.g = "?"])
  ELSE ZeroGau(keep)
NlgReduce(A, vars, vals) == [A EXCEPT !.ov = A.ov \o vars, !.ox = A.ox \o vals]

Nlm(ns, split) == [k |-> "nlm", v |-> ns[1].v, ns |-> ns, split |-> split]
LOCAL All(os, Make(_)) ==
  IF \E i \in DOMAIN os : os[i].o = "any" THEN Free
  ELSE IF \E i \in DOMAIN os : os[i].o = "rej" THEN Rej({"ValueError"})
  ELSE Val(Make([i \in DOMAIN os |-> os[i].v]))
NlmJoint(X) == LET cs == TLCEval([i \in DOMAIN X.ns |-> NlgJoint(X.ns[i])]) IN Mix(cs[1].v, cs, 0)

NlgOutcome(e, pool) ==
  LET A == pool[e.a]
      B == pool[e.b]
      J == NlgJoint(A)
      keep == IF e.keep THEN e.vars ELSE Without(A.v, e.vars)
  IN
  CASE e.op = "mul" /\ B.k = "gau" -> NlgMul(A, B)
    [] e.op = "mul" /\ B.k = "mix" -> All([i \in DOMAIN B.cs |-> NlgMul(A, B.cs[i])], LAMBDA ns : Nlm(ns, TRUE))
    [] e.op = "mul" /\ B.k \in {"nlg", "tab"} -> Rej({})
    [] e.op \in {"div", "cancel"} /\ B.k = "gau" -> NlgDiv(A, B)
    [] e.op = "reduce" -> IF \E x \in Range(e.vars) : InSeq(x, A.ov) THEN Free ELSE Val(NlgReduce(A, e.vars, e.vals))
    [] e.op = "marg" -> OrFree(NlgMarg(A, keep))
    [] e.op = "norm" -> IF NlgKnown(A) /\ GauWell(J) THEN Val(GauNorm(J)) ELSE Free
    [] e.op = "copy" -> Val(A)
    [] e.op = "joint" -> Val(J)
    \* (the order of the variables in vectors and matrices is that of the joint)
    [] e.op = "par" -> IF Has(e, "jv") /\ ~ (NoDup(e.jv) /\ SameSet(e.jv, J.v)) THEN Free
                       ELSE LET j == GauExt(J, Get(e, "jv", J.v)) IN
                            IF e.what = "w" THEN Free ELSE
                            IF NlgKnown(A) \/ e.what \in {"prec", "h"} THEN ParOutcome(j, e.what) ELSE Free
    [] e.op = "eq" -> IF B.k \in {"nlg"} THEN GauEquality(J, NlgJoint(B)) ELSE Free
    [] e.op = "ne" -> IF B.k \in {"nlg"} THEN Negate(GauEquality(J, NlgJoint(B))) ELSE Free
    [] e.op = "sample" -> IF Has(e, "jv") /\ ~ (NoDup(e.jv) /\ SameSet(e.jv, J.v)) THEN Free
                          ELSE LET j == GauExt(J, Get(e, "jv", J.v)) IN
                               IF NlgKnown(A) /\ GauWell(J) THEN [o |-> "sample", mean |-> GauMean(j), cov |-> GauCov(j)] ELSE Free
    [] OTHER -> Free

NlmOutcome(e, pool) ==
  LET A == pool[e.a]
      B == pool[e.b]
      keep == IF e.keep THEN e.vars ELSE Without(A.v, e.vars)
      Make(ns) == Nlm(ns, A.split)
      cs == IF B.k = "mix" THEN B.cs ELSE <<B>>
      n == Len(A.ns)
      ms(vs) == [i \in DOMAIN A.ns |-> NlgMarg(A.ns[i], vs)]
      div == IF B.k = "mix" THEN (IF ~ MixWell(B) THEN Undefined ELSE IF Len(B.cs) = 1 THEN B.cs[1] ELSE IF B.cm = 0 THEN MixMatched(B) ELSE Undefined) ELSE B
  IN
  CASE e.op = "mul" /\ B.k \in {"gau", "mix"} ->
         \* (a one dimensional Gaussian may be split into several: an approximation)
         IF A.split /\ Len(B.v) = 1 /\ Len(cs) = 1 THEN Free
         ELSE All([i \in 1 .. (n * Len(cs)) |-> NlgMul(A.ns[1 + ((i - 1) % n)], cs[1 + ((i - 1) \div n)])], Make)
    [] e.op = "mul" -> Rej({})
    [] e.op \in {"div", "cancel"} /\ B.k \in {"gau", "mix"} ->
         IF IsUndef(div) THEN Free ELSE All([i \in 1 .. n |-> NlgDiv(A.ns[i], div)], Make)
    [] e.op \in {"div", "cancel"} -> Rej({})
    [] e.op = "reduce" -> IF \E x \in Range(e.vars), i \in DOMAIN A.ns : InSeq(x, A.ns[i].ov) THEN Free
                          ELSE Val(Make([i \in DOMAIN A.ns |-> NlgReduce(A.ns[i], e.vars, e.vals)]))
    [] e.op = "marg" -> LET m == ms(keep) IN
                        IF \E i \in DOMAIN m : IsUndef(m[i]) THEN Free ELSE Val(Mix(keep, m, 0))
    [] e.op = "copy" -> Val(A)
    [] e.op = "joint" -> IF \A i \in DOMAIN A.ns : NlgKnown(A.ns[i]) THEN Val(NlmJoint(A)) ELSE Free
    [] OTHER -> Free

\* ---------------------------------------------------------- constructors
NlgNewOutcome(e, pool) ==
  CASE e.op = "newnlg" -> Val([k |-> "nlg", v |-> e.vin \o e.vout, vin |-> e.vin, vout |-> e.vout, A |-> e.A, c |-> e.m, N |-> e.N,
                               w |-> e.w, cf |-> GauOne, uf |-> GauOne, ov |-> <<>>, ox |-> <<>>])
    [] e.op = "newnlm" -> LET ns == [i \in DOMAIN e.hs |-> pool[e.hs[i]]] IN
                          IF \E i \in DOMAIN ns : ns[i].k # "nlg" THEN Rej({"TypeError"})
                          ELSE IF \E i \in DOMAIN ns : ~ SameSet(ns[i].v, ns[1].v) THEN Rej({"ValueError"})
                          \* (the joints have to come out in the same variable order)
                          ELSE IF \E i \in DOMAIN ns : ns[i].v # ns[1].v \/ ns[i].uf.v # ns[1].uf.v \/ ns[i].cf.v # ns[1].cf.v \/ ns[i].ov # ns[1].ov THEN Free
                          ELSE Val(Nlm(ns, e.split))
    [] OTHER -> Free

\* ------------------------------------------------------------ observations
NlgSame(E, O) ==
  /\ O.k = "nlg" /\ NoDup(O.v) /\ SameSet(E.v, O.v)
  /\ IF NlgKnown(E) THEN O.j.k = "gau" /\ GauNear(NlgJoint(E), O.j)
     ELSE O.j.k = "gau" /\ GauDefined(O.j) /\ GauVacuous(O.j)
NlmSame(E, O) ==
  /\ O.k = "nlm" /\ NoDup(O.v) /\ SameSet(E.v, O.v)
  /\ IF \A i \in DOMAIN E.ns : NlgKnown(E.ns[i]) THEN O.j.k = "mix" /\ MixSame(NlmJoint(E), O.j)
     ELSE O.j.k = "mix" /\ Len(O.j.cs) = Len(E.ns)

=============================================================================
