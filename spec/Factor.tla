------------------------------- MODULE Factor -------------------------------
(***************************************************************************)
(* The operations that inference needs, for discrete functions (Table) and  *)
(* Gaussian functions (Gauss) alike.  A function that does not exist is      *)
(* Undefined, and everything that is computed from it as well.               *)
(***************************************************************************)
LOCAL INSTANCE TLC
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE BigRat
LOCAL INSTANCE Seqs
LOCAL INSTANCE Table
LOCAL INSTANCE Gauss

FShort(A) ==
  CASE A.k = "tab" -> [A EXCEPT !.t = TLCEval([i \in DOMAIN A.t |-> IF Undef(A.t[i]) THEN A.t[i] ELSE RShort(A.t[i])])]
    [] A.k = "gau" -> [A EXCEPT !.K = TLCEval([i \in DOMAIN A.K |-> [j \in DOMAIN A.K |-> RShort(A.K[i][j])]]),
                                !.h = TLCEval([i \in DOMAIN A.h |-> RShort(A.h[i])]), !.g = RShort(A.g)]
    [] OTHER -> A
FMul(A, B) == CASE IsUndef(A) \/ IsUndef(B) -> Undefined [] A.k = "tab" -> TabMul(A, B) [] OTHER -> GauMul(A, B)
FCancel(A, B) == CASE IsUndef(A) \/ IsUndef(B) -> Undefined [] A.k = "tab" -> TabCancel(A, B) [] OTHER -> GauDiv(A, B)
\* a vacuous Gaussian (a constant) has no integral: only its shape survives marginalisation
FMarg(A, keep) ==
  CASE IsUndef(A) -> A
    [] A.k = "tab" -> TabMarg(A, keep)
    [] OTHER -> IF GauVacuous(A) /\ \A i \in DOMAIN A.h : A.h[i] = "0"
                THEN Gau(keep, Zero(Len(keep), Len(keep)), Const(Len(keep), "0"), "0") ELSE GauMarg(A, keep)
FReduce(A, vars, vals) ==
  CASE IsUndef(A) \/ vars = <<>> -> A
    [] A.k = "tab" -> TabReduce(A, vars, vals)
    [] OTHER -> GauReduce(A, vars, vals)
\* only the variables that A has
FReduceIn(A, vars, vals) == IF IsUndef(A) THEN A ELSE
  LET vs == Within(vars, A.v) IN FReduce(A, vs, [i \in DOMAIN vs |-> vals[Pos(vars, vs[i])]])
FOne(kind) == IF kind = "tab" THEN TabOne ELSE GauOne
FProduct(kind, s) == FoldLeft(LAMBDA a, b : FShort(FMul(a, b)), FOne(kind), s)

\* a divergence (which is not negative, but for the rounding of logarithms)
LOCAL RMaxX(x) == IF IsRat(x) THEN RMax(x, "0") ELSE x
FDefined(A) == ~ IsUndef(A) /\ (A.k = "tab" => Defined(A))
FZero(A) == A.k = "tab" /\ TabWeight(A) = "0"
\* "?" if it does not exist
FKL(P, Q) ==
  IF ~ FDefined(P) \/ ~ FDefined(Q) THEN "?"
  ELSE IF P.k = "tab" THEN (IF FZero(P) \/ FZero(Q) THEN "?" ELSE RMaxX(TabKL(TabNorm(P), TabNorm(Q))))
  \* (whether a precision that is zero up to rounding counts as no information is open)
  ELSE IF GauVacuous(P) \/ GauVacuous(Q) THEN "?"
  ELSE IF ~ GauProper(P) \/ ~ GauProper(Q) THEN "?" ELSE RMaxX(GauKL(P, Q))
FDfv(P) ==
  IF ~ FDefined(P) THEN "?"
  ELSE IF P.k = "tab" THEN (IF FZero(P) THEN "?" ELSE RMaxX(TabKL(TabNorm(P), TabUniform(P))))
  ELSE IF GauVacuous(P) THEN "?" ELSE "inf"

\* observed O represents expected E
FNear(E, O) == IF IsUndef(E) THEN TRUE ELSE E.k = O.k /\ (IF E.k = "tab" THEN TabNear(E, O) ELSE GauNear(E, O))
\* ... up to a positive factor
LOCAL PropVal(e, o) == e = "?" \/ (IsRat(o) /\ (IF e = "0" THEN o = "0" ELSE RNear(e, o, "1/10000000", "0")))
FNearProp(E, O) ==
  IF IsUndef(E) THEN TRUE
  ELSE IF E.k # O.k THEN FALSE
  ELSE IF E.k = "gau" THEN GauNearUpToScale(E, O)
  ELSE IF FZero(E) THEN TabNear(E, O)
  ELSE Defined(O) /\ ~ FZero(O) /\ TabRel(PropVal, TabNorm(E), TabNorm(O))
\* no undefined or negative values
FSane(O) == IF O.k = "tab" THEN NonNeg(O) ELSE IF O.k = "gau" THEN GauDefined(O) ELSE FALSE
FSameScope(v, O) == NoDup(O.v) /\ SameSet(v, O.v)
=============================================================================
