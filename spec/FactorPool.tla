----------------------------- MODULE FactorPool -----------------------------
(***************************************************************************)
(* The state machine of a client of the factor library: a pool of factor    *)
(* objects (handles) and one action per public operation.  The pool maps a  *)
(* handle to the abstract function that the object represents (plus its      *)
(* observable attributes).  An operation adds at most one handle and         *)
(* changes nothing else (the frame condition); what the new handle           *)
(* represents is given by the factor algebra (Table, Gauss, ...).            *)
(*                                                                           *)
(* An event is a command together with what was observed: st ("ok" or        *)
(* "raise"), err (exception class), res (projected result), chg (sequence of *)
(* [h, p]: all handles whose projection is not literally what it was),       *)
(* argmut (was a container that was passed in changed?).                     *)
(*                                                                           *)
(* Outcome(c, pool) is the transition relation: what the command c does in   *)
(* the given state.  Failures(e, pool) names the clauses that an observed     *)
(* event breaks (the empty set iff the event is a step of the machine).      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, BigRat, Seqs, Table, Gauss, Outcomes, GauOps, NlgOps, Templates, Arguments

\* ------------------------------------------------- discrete factors
NamesOf(A, x) == A.nm[Pos(A.v, x)]
NamesAgree(A, B) == A.sp \/ B.sp \/ \A x \in Range(A.v) \cap Range(B.v) : NamesOf(A, x) = NamesOf(B, x)
CardsAgree(A, B) == \A x \in Range(A.v) \cap Range(B.v) : CardOf(A, x) = CardOf(B, x)
\* Attributes of a result: the names come along with the variables.  d is the value that a sparse factor gives to
\* assignments it does not store (a detail of the representation, except that only equal ones can be combined).
WithAttr(T, A, B, d) ==
  [k |-> "tab", v |-> T.v, c |-> T.c, t |-> T.t, sp |-> A.sp, df |-> d, dx |-> d,
   nm |-> [i \in DOMAIN T.v |-> IF A.sp THEN <<>>
                                ELSE IF InSeq(T.v[i], A.v) THEN NamesOf(A, T.v[i]) ELSE NamesOf(B, T.v[i])]]

TabBinary(Op(_, _), ValOp(_, _), A, B) ==
  IF A.sp # B.sp THEN Rej({"TypeError"})
  ELSE IF ~ CardsAgree(A, B) THEN Rej({})
  ELSE IF ~ NamesAgree(A, B) THEN Rej({"InconsistentAssignmentNamesError"})
  ELSE IF A.sp /\ A.dx # B.dx THEN (IF NearVal(A.df, B.df) THEN Free ELSE Rej({}))
  ELSE Val(WithAttr(Op(A, B), A, B, IF A.sp THEN ValOp(A.df, B.df) ELSE ""))
Marginal(A, keep) ==
  WithAttr(TabMarg(A, keep), A, A,
           IF A.sp THEN MulVal(A.df, RInt(IProd(Pick(A.v, A.c, Without(A.v, keep))))) ELSE "")

KLOutcome(p, q, nrm) ==
  LET d == TabKL(p, q) IN
  IF d = "inf" THEN Num(d)
  ELSE IF ~ nrm /\ RLt(d, "-1/1000000000000") THEN Free   \* not a divergence of distributions
  ELSE Num(RMax(d, "0"))

\* Equality within the tolerance: certain if the values are (almost) identical or clearly different.
\* (the relative tolerance, 1/10000, is applied to the logarithms, so it is coarser for values of extreme magnitude)
ExtremeVal(x) == RLt(x, "1/1000000000000000000000000000000") \/ RLt("1000000000000000000000000000000", x)
ClearlyDiff(x, y) ==
  IF x = "0" \/ y = "0" THEN x # y
  ELSE IF ~ (ExtremeVal(x) \/ ExtremeVal(y)) THEN ~ RNear(x, y, "1/100", "0")
  ELSE LET a == RLn(x) b == RLn(y) IN RLt(RAdd("1/100", RMul("1/5000", RMax(RAbs(a), RAbs(b)))), RAbs(RSub(a, b)))
AlmostSame(x, y) == IF x = "0" \/ y = "0" THEN x = y ELSE RNear(x, y, "1/10000000000", "0")
TabEquality(A, B) ==
  IF A.sp # B.sp THEN Rej({"TypeError"})
  ELSE IF ~ (Defined(A) /\ Defined(B)) THEN Free
  ELSE IF ~ SameShape(A, B) THEN Bool(FALSE)
  ELSE IF TabRel(AlmostSame, A, B) THEN Bool(TRUE)
  ELSE IF ~ TabRel(LAMBDA x, y : ~ ClearlyDiff(x, y), A, B) THEN Bool(FALSE)
  ELSE Free

\* Equality within given relative and absolute tolerances of the logarithms of the values.
TabEqualityTol(A, B, rt, at) ==
  LET Close(x, y, f) == IF x = "0" \/ y = "0" THEN x = y
                        ELSE LET a == RLn(x) b == RLn(y) IN
                             RLe(RAbs(RSub(a, b)), RMul(f[1], RAdd(at, RMul(rt, IF f[2] THEN RMax(RAbs(a), RAbs(b)) ELSE RMin(RAbs(a), RAbs(b))))))
  IN
  IF A.sp # B.sp THEN Rej({"TypeError"})
  ELSE IF ~ (Defined(A) /\ Defined(B)) THEN Free
  ELSE IF ~ SameShape(A, B) THEN Bool(FALSE)
  ELSE IF TabRel(LAMBDA x, y : Close(x, y, <<"9/10", FALSE>>), A, B) THEN Bool(TRUE)
  ELSE IF ~ TabRel(LAMBDA x, y : Close(x, y, <<"11/10", TRUE>>), A, B) THEN Bool(FALSE)
  ELSE Free

TabOutcome(e, pool) ==
  LET A == pool[e.a]
      B == pool[e.b]
      ok == Defined(A)
      w == TabWeight(A)
  IN
  CASE e.op = "mul" -> IF A.k # B.k THEN Rej({}) ELSE TabBinary(TabMul, MulVal, A, B)
    [] e.op = "div" -> IF A.k # B.k THEN Rej({}) ELSE TabBinary(TabDiv, DivVal, A, B)
    [] e.op = "cancel" -> IF A.k # B.k THEN Rej({}) ELSE IF A.sp # B.sp THEN Free ELSE TabBinary(TabCancel, CancelVal, A, B)
    [] e.op = "marg" -> Val(Marginal(A, IF e.keep THEN e.vars ELSE Without(A.v, e.vars)))
    [] e.op = "reduce" -> Val(WithAttr(TabReduce(A, e.vars, e.vals), A, A, A.df))
    [] e.op = "reorder" -> Val(WithAttr(TabReorder(A, e.vars), A, A, A.df))
    [] e.op = "copy" -> Val(A)
    [] e.op = "norm" -> IF ~ ok \/ w = "0" THEN Free ELSE Val(WithAttr(TabNorm(A), A, A, IF A.sp THEN DivVal(A.df, w) ELSE ""))
    [] e.op = "weight" -> IF ok THEN Num(w) ELSE Free
    [] e.op = "kl" ->
         IF A.k # B.k \/ A.sp # B.sp \/ ~ ok \/ ~ Defined(B) \/ w = "0" \/ TabWeight(B) = "0" THEN Free
         ELSE IF ~ CardsAgree(A, B) \/ ~ SameSet(A.v, B.v) THEN Rej({})
         ELSE IF ~ NamesAgree(A, B) THEN Rej({"InconsistentAssignmentNamesError"})
         ELSE KLOutcome(TabNorm(A), IF e.nrm THEN TabNorm(B) ELSE B, e.nrm)
    [] e.op = "dfv" -> IF ~ ok \/ w = "0" THEN Free ELSE KLOutcome(TabNorm(A), TabUniform(A), TRUE)
    [] e.op = "isvac" ->
         IF ~ ok \/ w = "0" THEN Free
         ELSE IF TabRel(AlmostSame, TabNorm(A), TabUniform(A)) THEN Bool(TRUE)
         ELSE IF RLt("1/100000000", TabKL(TabNorm(A), TabUniform(A))) THEN Bool(FALSE) ELSE Free
    [] e.op = "eq" -> IF A.k # B.k THEN Rej({}) ELSE IF Has(e, "tol") THEN TabEqualityTol(A, B, e.tol[1], e.tol[2]) ELSE TabEquality(A, B)
    [] e.op = "ne" -> IF A.k # B.k THEN Rej({})
                      ELSE Negate(TabEquality(A, B))
    [] e.op = "pot" -> Num(TabAt(A, e.vars, e.vals))
    [] e.op = "argmax" -> IF ok THEN [o |-> "argmax", v |-> A] ELSE Free
    [] e.op = "argmaxn" -> IF ok THEN [o |-> "argmaxn", v |-> A] ELSE Free
    [] e.op = "list" -> IF ok THEN [o |-> "list", v |-> A] ELSE Free
    [] OTHER -> Free

\* Sparse factors over so many variables that their tables could never be listed: rows e.rows are stored, everything else has the value e.df.
\* The result is an ordinary table over a few variables.
BigSparse(e) ==
  LET rest == Without(e.v, e.vars)
      kc == Pick(e.v, e.c, e.vars)
      st == Strides(kc)
      Count(c) == FoldLeft(LAMBDA x, y : RMul(x, RInt(y)), "1", c)
      nr == Count(Pick(e.v, e.c, rest))
      keep == TLCEval([i \in DOMAIN e.vars |-> Pos(e.v, e.vars[i])])
      gone == TLCEval([i \in DOMAIN rest |-> Pos(e.v, rest[i])])
      Fits(j, a) == \A i \in DOMAIN kc : a[keep[i]] = (((j - 1) \div st[i]) % kc[i])
      W(x) == IF e.how = "square" THEN RMul(x, x) ELSE x
      sum(j) == LET m == SelectSeq(e.rows, LAMBDA r : Fits(j, r.a)) IN
                RAdd(RSum([i \in DOMAIN m |-> W(m[i].w)]), RMul(W(e.df), RSub(nr, RInt(Len(m)))))
      at(j) == LET m == SelectSeq(e.rows, LAMBDA r : Fits(j, r.a) /\ \A i \in DOMAIN gone : r.a[gone[i]] = e.at[i]) IN IF m = <<>> THEN e.df ELSE m[1].w
      total == RAdd(RSum([i \in DOMAIN e.rows |-> W(e.rows[i].w)]), RMul(W(e.df), RSub(Count(e.c), RInt(Len(e.rows)))))
      S(x) == IF e.how = "norm" THEN RDiv(x, total) ELSE x
      d == IF e.how = "reduce" THEN e.df ELSE S(RMul(W(e.df), nr))
  IN [k |-> "tab", v |-> e.vars, c |-> kc, sp |-> TRUE, df |-> d, dx |-> d, nm |-> [i \in DOMAIN kc |-> <<>>],
      t |-> TLCEval([j \in 1 .. IProd(kc) |-> IF e.how = "reduce" THEN at(j) ELSE S(sum(j))])]

\* --------------------------------------------------------- the constructors
NewOutcome(e, pool) ==
  CASE e.op = "rawtab" -> RawTab(e)
    [] e.op = "bigsp" -> Val(BigSparse(e))
    [] e.op = "rawgau" -> RawGau(e)
    [] e.op \in {"newlin", "newnlg"} /\ LinArgs(e) # "good" -> IF LinArgs(e) = "bad" THEN Rej({}) ELSE Free
    [] e.op \in {"newmix", "newnlm"} /\ e.hs = <<>> -> Rej({})
    [] e.op = "newfac" /\ (e.hs = <<>> \/ \E i \in DOMAIN e.hs : pool[e.hs[i]].k = "fac") -> Rej({})
    [] e.op = "newstd" -> IF e.v = <<>> \/ ~ NoDup(e.v) THEN Rej({})
                          ELSE Val(GauFromCov(e.v, Identity(Len(e.v)), Const(Len(e.v), "0"), "0"))
    [] e.op = "newtab" -> Val([k |-> "tab", v |-> e.v, c |-> e.c, t |-> e.t, sp |-> e.sp, df |-> e.df, dx |-> e.df, nm |-> e.nm])
    [] e.op \in {"newnlg", "newnlm"} -> NlgNewOutcome(e, pool)
    [] e.op = "newtpl" -> Val([k |-> "tpl", v |-> <<>>, tv |-> e.tv, tw |-> e.tw, par |-> e.par])
    [] OTHER -> GauNewOutcome(e, pool)

TplOutcome(e, pool) ==
  LET T == pool[e.a] n == NamesFor(T, e) IN
  CASE e.op = "make" -> IF ~ n.ok THEN Rej({"KeyError"})
                        ELSE IF ~ NoDup(n.vs \o n.ws) THEN Free
                        ELSE NewOutcome(Instance(T, n.vs, n.ws), pool)
    [] e.op = "fmtb" -> Bool(n.ok)
    [] OTHER -> Free

\* Printing only looks; it shows the mean and covariance, which improper
\* Gaussians do not have.
Showable(A) ==
  CASE A.k = "tab" -> Defined(A)
    [] A.k = "gau" -> GauWell(A)
    [] A.k = "mix" -> MixWell(A)
    [] A.k = "nlg" -> NlgKnown(A) /\ GauWell(NlgJoint(A)) /\ GauWell(A.cf)
    [] OTHER -> FALSE

\* Plots show the factor: dense tables as bars, Gaussians and mixtures with one variable as curves, with two as contours.
Words == {"prob", "assignment"}
PlotOutcome(e, A) ==
  CASE A.k = "tab" -> IF ~ A.sp /\ A.v # <<>> /\ Range(A.v) \cap Words = {} /\ Defined(A) THEN [o |-> "plot", v |-> A] ELSE Free
    [] A.k \in {"gau", "mix"} -> IF Len(A.v) > 2 THEN Rej({}) ELSE IF A.v = <<>> THEN Free
                               ELSE IF (IF A.k = "gau" THEN GauWell(A) ELSE MixWell(A)) THEN [o |-> "plot", v |-> A] ELSE Free
    [] OTHER -> Free

Outcome(e, pool) ==
  IF ~ Has(e, "a") THEN NewOutcome(e, pool)
  ELSE IF e.op = "plot" THEN PlotOutcome(e, pool[e.a])
  ELSE IF ArgsOf(e, pool[e.a]) # "good" THEN (IF ArgsOf(e, pool[e.a]) = "bad" THEN Rej({}) ELSE Free)
  ELSE IF e.op = "show" THEN (IF Showable(pool[e.a]) THEN [o |-> "text", v |-> pool[e.a]] ELSE Free)
  ELSE LET k == pool[e.a].k
           c == IF Has(e, "b") THEN e ELSE e @@ [b |-> e.a]
       IN
       CASE k = "tab" -> TabOutcome(c, pool)
         [] k = "gau" -> GauOutcome(c, pool)
         [] k = "mix" -> MixOutcome(c, pool)
         [] k = "fac" -> FacOutcome(c, pool)
         [] k = "nlg" -> NlgOutcome(c, pool)
         [] k = "nlm" -> NlmOutcome(c, pool)
         [] k = "tpl" -> TplOutcome(c, pool)
         [] OTHER -> Free

\* ----------------------------------------------------------- observations
SameFactor(E, O) == \* O represents the same function as E
  CASE E.k = "tab" -> O.k = "tab" /\ E.sp = O.sp /\ TabNear(E, O)
    [] E.k = "gau" -> O.k = "gau" /\ GauNear(E, O)
    [] E.k = "mix" -> O.k = "mix" /\ O.cm = E.cm /\ MixSame(E, O)
    [] E.k = "fac" -> O.k \in {"gau", "fac"} /\ FacSame(E, O)
    [] E.k = "nlg" -> NlgSame(E, O)
    [] E.k = "nlm" -> NlmSame(E, O)
    [] E.k = "other" -> TRUE
    [] OTHER -> E.k = O.k
SameNames(E, O) == (E.k = "tab" /\ O.k = "tab" /\ SameSet(E.v, O.v)) => \A x \in Range(E.v) : NamesOf(E, x) = NamesOf(O, x)
NearAns(e, o) == IF IsRat(e) THEN IsRat(o) /\ RNear(e, o, "1/100000000", "1/1000000000") ELSE e = "?" \/ e = o

\* Operations whose result has a definite variable order.
OrderFail(e, E) ==
  CASE e.op = "marg" -> e.keep /\ E.k # "fac" /\ e.res.v # e.vars
    [] e.op \in {"reorder", "newtab", "rawtab", "bigsp", "newgau", "rawgau", "newstd", "newvac", "newlin", "newmix", "newskm", "mm", "newnlg", "make"} -> e.res.v # E.v
    [] e.op = "copy" -> E.k # "fac" /\ e.res.v # E.v
    [] OTHER -> FALSE

ValFailures(e, E) ==
  IF e.st # "ok" THEN {"raised"}
  ELSE (IF SameFactor(E, e.res) THEN {} ELSE {"value"})
       \cup (IF FormsAgree(e.res) THEN {} ELSE {"forms"})
       \cup (IF OrderFail(e, E) THEN {"order"} ELSE {})
       \cup (IF SameNames(E, e.res) THEN {} ELSE {"names"})
       \cup (IF Get(e.res, "cons", TRUE) THEN {} ELSE {"attributes"})

\* the index of a value name (names are only used by dense factors)
IndexOf(A, x, n) == IF \E i \in DOMAIN NamesOf(A, x) : NamesOf(A, x)[i] = n THEN Pos(NamesOf(A, x), n) - 1 ELSE 99
InRange(A, asg) == Len(asg) = Len(A.v) /\ \A i \in DOMAIN asg : asg[i] \in 0 .. (A.c[i] - 1)
ModeFailures(A, asg) ==
  IF InRange(A, asg) /\ LET x == TabMax(A) y == TabAt(A, A.v, asg) IN x = y \/ (~ Undef(x) /\ ~ Undef(y) /\ RNear(x, y, "1/100000000000", "0")) THEN {} ELSE {"answer"}
\* A listing [v, rows], each row [a |-> values or names, p |-> value]: every assignment once.
ListFailures(e, A) ==
  LET L == e.res
      asg(i) == TLCEval([j \in DOMAIN L.v |-> IF e.named THEN IndexOf(A, L.v[j], L.rows[i].a[j]) ELSE L.rows[i].a[j]])
      al == TLCEval([i \in DOMAIN L.rows |-> asg(i)])
      B == TabReorder(A, L.v)
  IN IF /\ NoDup(L.v) /\ SameSet(L.v, A.v)
        /\ Len(L.rows) = Len(A.t)
        /\ \A i \in DOMAIN al : InRange(B, al[i]) /\ NearVal(TabAt(B, B.v, al[i]), L.rows[i].p)
        /\ Cardinality(Range(al)) = Len(A.t)
     THEN {} ELSE {"answer"}

\* the bars [l, w]: one for every assignment, labelled with the names of the values
Bare(n) == IF SubSeq(n, 1, 1) = "'" THEN SubSeq(n, 2, Len(n) - 1) ELSE n
BarsRight(A, bars) ==
  LET st == Strides(A.c)
      at == TLCEval([i \in DOMAIN A.t |-> [j \in DOMAIN A.c |-> ((i - 1) \div st[j]) % A.c[j]]])
      label(i) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ", " \o b, "", [j \in DOMAIN A.v |-> Bare(A.nm[j][1 + at[i][j]])])
      ls == TLCEval([i \in DOMAIN A.t |-> label(i)])
  IN /\ Len(bars) = Len(A.t)
     /\ \A i \in DOMAIN ls : Cardinality({k \in DOMAIN bars : bars[k].l = ls[i]}) = Cardinality({k \in DOMAIN ls : ls[k] = ls[i]})
     /\ \A i \in DOMAIN ls : \E k \in DOMAIN bars : bars[k].l = ls[i] /\ NearVal(A.t[i], bars[k].w)
\* the pieces of a factor, each with its variables in the given order
PlotPieces(A) == IF A.k = "gau" THEN <<A>> ELSE A.cs
LogOf(A, vs, xs) == IF A.k = "gau" THEN GauLogAt(A, vs, xs) ELSE MixLogAt(A, vs, xs)
PointRight(lp, lg, y) == LET o == PotOutcome(lp, lg) IN o.o # "num" \/ GauAnswer(o, y)
\* most of every piece lies between the limits
Covers(A, x, lo, hi) ==
  \A i \in DOMAIN PlotPieces(A) :
    LET P == PlotPieces(A)[i]
        k == Pos(P.v, x)
        m == GauMean(P)[k]
        s2 == GauCov(P)[k][k]
        far(d) == RLe(RMul("9/10", s2), RMul(d, d))
    IN RLt(lo, m) /\ RLt(m, hi) /\ far(RSub(m, lo)) /\ far(RSub(hi, m))
Limits(A, x, lim, lo, hi) == IF lim = <<>> THEN Covers(A, x, lo, hi) ELSE RNear(lim[1], lo, "1/1000000000", "1/1000000000") /\ RNear(lim[2], hi, "1/1000000000", "1/1000000000")
CurveRight(A, lg, c) == \A i \in DOMAIN c.x : PointRight(LogOf(A, A.v, <<c.x[i]>>), lg, c.y[i])
PlotFailures(e, A) ==
  LET r == e.res
      n == Len(r.curves)
      ok == CASE A.k = "tab" -> BarsRight(A, r.bars)
              [] Len(A.v) = 1 ->
                   /\ n = (IF e.comps /\ A.k = "mix" THEN 1 + Len(A.cs) ELSE 1)
                   /\ \E t \in DOMAIN r.curves :
                        /\ CurveRight(A, e.lg, r.curves[t]) /\ r.curves[t].n >= 50
                        /\ Limits(A, A.v[1], e.xlim, r.curves[t].x[1], r.curves[t].x[Len(r.curves[t].x)])
                        /\ n > 1 => \A i \in DOMAIN A.cs : \E j \in DOMAIN r.curves \ {t} : CurveRight(A.cs[i], e.lg, r.curves[j])
              [] OTHER -> \A t \in DOMAIN r.areas :
                   LET a == r.areas[t] IN
                   /\ {a.xl, a.yl} = Range(A.v)
                   /\ \A i \in DOMAIN a.p : PointRight(LogOf(A, <<a.xl, a.yl>>, <<a.p[i][1], a.p[i][2]>>), e.lg, a.p[i][3])
                   \* (a mixture needs both limits)
                   /\ (e.xlim = <<>>) = (e.ylim = <<>>) => Limits(A, a.xl, e.xlim, a.xr[1], a.xr[2]) /\ Limits(A, a.yl, e.ylim, a.yr[1], a.yr[2])
  IN IF ok THEN {} ELSE {"plot"}

\* Printed forms show the factor to four decimals: every row of a table (of a sparse one, those that are stored; the
\* others have the default value), and the parameters of Gaussians in the forms that they have.
Printed(x, y) == IF ~ IsRat(x) THEN y = x \/ IsRat(y) ELSE IsRat(y) /\ RNear(x, y, "1/1000000", "501/10000000")
TableText(A, T) ==
  LET ok == NoDup(T.v) /\ SameSet(T.v, A.v)
      B == TLCEval(TabReorder(A, T.v))
      al == [i \in DOMAIN T.rows |-> T.rows[i].a]
      told == Range(al)
      st == Strides(B.c)
      at(i) == TLCEval([j \in DOMAIN B.c |-> ((i - 1) \div st[j]) % B.c[j]])
  IN /\ ok
     /\ Cardinality(told) = Len(T.rows)
     /\ \A i \in DOMAIN al : InRange(B, al[i]) /\ Printed(TabAt(B, B.v, al[i]), T.rows[i].p)
     /\ IF A.sp THEN A.df = "?" \/ \A i \in DOMAIN B.t : at(i) \in told \/ NearVal(A.df, B.t[i])
                ELSE Len(T.rows) = Len(A.t)
\* (with large and small numbers in one matrix, printing uses exponents)
ShownNum(x, y) == IsRat(y) /\ RNear(x, y, "1/5000", "1/10000")
ShownVec(x, y) == y = <<>> \/ \A i \in DOMAIN x : ShownNum(x[i], y[i])
ShownMat(M, L) == L = <<>> \/ \A i \in DOMAIN M : ShownVec(M[i], L[i])
GauText(A, T) ==
  /\ NoDup(T.v) /\ SameSet(T.v, A.v)
  /\ (T.cov # <<>> \/ T.prec # <<>>) /\ (T.cov = <<>>) = (T.mean = <<>>) /\ (T.cov = <<>>) = (T.log_weight = <<>>)
  /\ (T.prec = <<>>) = (T.h = <<>>) /\ (T.prec = <<>>) = (T.g = <<>>)
  /\ LET B == TLCEval(GauExt(A, T.v)) IN
     /\ ShownMat(B.K, T.prec) /\ ShownVec(B.h, T.h) /\ (B.g = "?" \/ ShownVec(<<B.g>>, T.g))
     /\ T.cov # <<>> => ShownMat(GauCov(B), T.cov) /\ ShownVec(GauMean(B), T.mean)
                        /\ (B.g = "?" \/ ShownVec(<<GauLogWeight(B)>>, T.log_weight))
TextFailures(A, texts) ==
  IF \A i \in DOMAIN texts :
       CASE A.k = "tab" -> TableText(A, texts[i][1])
         [] A.k = "gau" -> Len(texts[i]) = 1 /\ GauText(A, texts[i][1])
         [] A.k = "mix" -> /\ Len(texts[i]) = Len(A.cs)
                           /\ \A j \in DOMAIN A.cs : \E m \in DOMAIN A.cs : GauText(A.cs[j], texts[i][m])
         [] OTHER -> TRUE
  THEN {} ELSE {"answer"}

QueryFailures(e, out, k) ==
  IF e.st # "ok" THEN {"raised"}
  ELSE IF out.o = "text" THEN TextFailures(out.v, e.res)
  ELSE IF out.o = "plot" THEN PlotFailures(e, out.v)
  ELSE IF k # "tab" /\ out.o # "bool" THEN (IF GauAnswer(out, e.res) THEN {} ELSE {"answer"})
  ELSE CASE out.o = "num" -> IF NearAns(out.v, e.res) THEN {} ELSE {"answer"}
         [] out.o = "bool" -> IF e.res = out.v THEN {} ELSE {"answer"}
         [] out.o = "argmax" -> ModeFailures(out.v, e.res)
         [] out.o = "argmaxn" ->
              IF Len(e.res) # Len(out.v.v) THEN {"answer"}
              ELSE ModeFailures(out.v, [i \in DOMAIN e.res |-> IndexOf(out.v, out.v.v[i], e.res[i])])
         [] out.o = "list" -> ListFailures(e, out.v)

FrameFailures(e, pool) ==
  UNION {LET h == e.chg[i].h p == e.chg[i].p IN
         IF h \in DOMAIN pool /\ ~ (SameFactor(pool[h], p) /\ pool[h].v = p.v /\ SameNames(pool[h], p))
         THEN {"operand"} ELSE IF FormsAgree(p) THEN {} ELSE {"forms"} : i \in DOMAIN e.chg}
  \cup (IF e.argmut THEN {"args"} ELSE {})

Failures(e, pool) ==
  LET out == Outcome(e, pool) IN
  FrameFailures(e, pool) \cup
  CASE e.op = "hang" -> {"hang"}    \* a call did not return
    [] out.o = "any" -> {}
    [] out.o = "rej" -> IF e.st = "ok" THEN {"accepted"}
                        ELSE IF out.v # {} /\ e.err \notin out.v THEN {"wrong-error"} ELSE {}
    [] out.o = "val" -> ValFailures(e, out.v)
    \* (the optimisation may not succeed)
    [] out.o = "laplace" -> IF e.st # "ok" \/ LaplaceOk(out.v, out.w, e.res) THEN {} ELSE {"value"}
    [] OTHER -> QueryFailures(e, out, IF Has(e, "a") THEN pool[e.a].k ELSE "")
=============================================================================
