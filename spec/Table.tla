------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* Discrete functions.  A table [k |-> "tab", v, c, t] is a function from   *)
(* the assignments of the variables v (with cardinalities c) to values; t   *)
(* lists the values with the last variable varying fastest.  Values are     *)
(* rationals (BigRat) or "?" where an operation is undefined.               *)
(* Operations are defined pointwise; nothing here depends on a particular   *)
(* order of the variables of the operands.                                  *)
(***************************************************************************)
LOCAL INSTANCE TLC
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE BigRat
LOCAL INSTANCE Seqs

Tab(v, c, t) == [k |-> "tab", v |-> v, c |-> c, t |-> t]
TabOne == Tab(<<>>, <<>>, <<"1">>)

Strides(c) == TLCEval([i \in DOMAIN c |-> IProd(SubSeq(c, i + 1, Len(c)))])

\* All sums of digit * stride, the digits counting through the cardinalities c (last one fastest).
RECURSIVE Offsets(_, _)
Offsets(c, s) ==
  IF c = <<>> THEN <<0>>
  ELSE LET sub == Offsets(Tail(c), Tail(s))
           n == Len(sub)
       IN TLCEval([i \in 1 .. (Head(c) * n) |-> ((i - 1) \div n) * Head(s) + sub[((i - 1) % n) + 1]])

CardOf(A, x) == A.c[Pos(A.v, x)]
StrideFor(A, v) == \* the strides of A for the variables v (0 for a variable that A does not have)
  LET st == Strides(A.c)
  IN TLCEval([i \in DOMAIN v |-> IF InSeq(v[i], A.v) THEN st[Pos(A.v, v[i])] ELSE 0])

\* A function of the values of A and B at every joint assignment.
TabBin(Op(_, _), A, B) ==
  LET rest == Without(B.v, A.v)
      v == A.v \o rest
      c == A.c \o Pick(B.v, B.c, rest)
      oa == Offsets(c, StrideFor(A, v))
      ob == Offsets(c, StrideFor(B, v))
  IN Tab(v, c, TLCEval([i \in DOMAIN oa |-> Op(A.t[oa[i] + 1], B.t[ob[i] + 1])]))

Undef(x) == ~ IsRat(x)
MulVal(x, y) == IF Undef(x) \/ Undef(y) THEN "?" ELSE RMul(x, y)
DivVal(x, y) == IF Undef(x) \/ Undef(y) \/ y = "0" THEN "?" ELSE RDiv(x, y)
\* cancellation: 0/0 = 0
CancelVal(x, y) == IF Undef(x) \/ Undef(y) THEN "?"
                   ELSE IF y = "0" THEN (IF x = "0" THEN "0" ELSE "?") ELSE RDiv(x, y)
SumVals(s) == IF \E i \in DOMAIN s : Undef(s[i]) THEN "?" ELSE RSum(s)

TabMul(A, B) == TabBin(MulVal, A, B)
TabDiv(A, B) == TabBin(DivVal, A, B)
TabCancel(A, B) == TabBin(CancelVal, A, B)

\* Sum out all variables that are not in keep (a sequence); the result has the variable order of keep.
TabMarg(A, keep) ==
  LET out == Without(A.v, keep)
      kc == Pick(A.v, A.c, keep)
      kb == Offsets(kc, StrideFor(A, keep))
      ob == Offsets(Pick(A.v, A.c, out), StrideFor(A, out))
  IN Tab(keep, kc,
         IF out = <<>>
         THEN TLCEval([i \in DOMAIN kb |-> A.t[kb[i] + 1]])
         ELSE TLCEval([i \in DOMAIN kb |-> SumVals([j \in DOMAIN ob |-> A.t[kb[i] + ob[j] + 1]])]))

TabReorder(A, order) == TabMarg(A, order)

\* Substitute values for some variables.
TabReduce(A, vars, vals) ==
  LET rest == Without(A.v, vars)
      st == StrideFor(A, vars)
      base == ISum([i \in DOMAIN vars |-> st[i] * vals[i]])
      rc == Pick(A.v, A.c, rest)
      rb == Offsets(rc, StrideFor(A, rest))
  IN Tab(rest, rc, TLCEval([i \in DOMAIN rb |-> A.t[base + rb[i] + 1]]))

TabAt(A, vars, vals) == LET st == StrideFor(A, vars) IN A.t[1 + ISum([i \in DOMAIN vars |-> st[i] * vals[i]])]

TabWeight(A) == SumVals(A.t)
TabScale(A, x) == Tab(A.v, A.c, TLCEval([i \in DOMAIN A.t |-> MulVal(A.t[i], x)]))
TabNorm(A) == LET w == TabWeight(A) IN
              Tab(A.v, A.c, TLCEval([i \in DOMAIN A.t |-> DivVal(A.t[i], w)]))
TabUniform(A) == Tab(A.v, A.c, TLCEval([i \in DOMAIN A.t |-> RDiv("1", RInt(Len(A.t)))]))

Defined(A) == \A i \in DOMAIN A.t : IsRat(A.t[i])
NonNeg(A) == \A i \in DOMAIN A.t : IsRat(A.t[i]) /\ RLe("0", A.t[i])

\* sum of p ln(p / q) over all assignments with 0 ln(0 / q) = 0; "inf" if q = 0 < p somewhere
TabKL(P, Q) ==
  LET q == TabReorder(Q, P.v)
      pos == {i \in DOMAIN P.t : P.t[i] # "0"}
  IN IF \E i \in pos : q.t[i] = "0" THEN "inf"
     ELSE RSum([i \in DOMAIN P.t |-> IF i \in pos THEN RMul(P.t[i], RLn(RDiv(P.t[i], q.t[i]))) ELSE "0"])

TabMax(A) == FoldLeft(RMax, A.t[1], A.t)

\* Same variables, same cardinalities, and related values at every assignment.
SameShape(A, B) == /\ NoDup(A.v) /\ NoDup(B.v) /\ SameSet(A.v, B.v)
                   /\ \A i \in DOMAIN A.v : A.c[i] = CardOf(B, A.v[i])
TabRel(Rel(_, _), A, B) == SameShape(A, B) /\ LET b == TabReorder(B, A.v) IN \A i \in DOMAIN A.t : Rel(A.t[i], b.t[i])
TabEq(A, B) == TabRel(LAMBDA x, y : x = y, A, B)

\* expected value e, observed value o: zeros exactly, everything else within a relative 1e-9
NearVal(e, o) == e = "?" \/ (IsRat(o) /\ (IF e = "0" THEN o = "0" ELSE RNear(e, o, "1/1000000000", "0")))
TabNear(E, O) == TabRel(NearVal, E, O)
=============================================================================
