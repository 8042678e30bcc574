------------------------------ MODULE Arguments ------------------------------
(***************************************************************************)
(* What the arguments of a call mean.  Raw arguments are values of the      *)
(* implementation language:                                                  *)
(*   [t |-> "none"], [t |-> "num", x], [t |-> "str", x],                     *)
(*   [t |-> "list", x |-> <<values>>], [t |-> "arr", sh |-> shape, x |-> flat] *)
(* Arguments that describe nothing are rejected; where it is not specified   *)
(* what odd arguments mean, the outcome is Free.                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, BigRat, Seqs, Gauss, Outcomes

None(a) == a.t = "none"
IsNum(a) == a.t = "num"
LOCAL AllNum(s) == \A i \in DOMAIN s : IsNum(s[i])
LOCAL Nums(s) == [i \in DOMAIN s |-> s[i].x]
LOCAL AllLists(s, n) == \A i \in DOMAIN s : s[i].t = "list" /\ Len(s[i].x) = n /\ AllNum(s[i].x)

Good(x) == [o |-> "good", v |-> x]
Bad == [o |-> "bad"]
Odd == [o |-> "odd"]

\* an n x n matrix
MatrixArg(a, n) ==
  LET fits(m, M) == IF m = n THEN Good(M) ELSE Bad IN
  CASE a.t = "num" -> fits(1, << <<a.x>> >>)
    [] a.t = "list" ->
         LET m == Len(a.x) IN
         IF m = 0 THEN Bad
         ELSE IF m = 1 /\ IsNum(a.x[1]) THEN fits(1, << <<a.x[1].x>> >>)
         ELSE IF AllLists(a.x, m) THEN fits(m, [i \in 1 .. m |-> Nums(a.x[i].x)])
         ELSE Bad
    [] a.t = "arr" -> IF Len(a.sh) = 2 /\ a.sh[1] = a.sh[2]
                      THEN fits(a.sh[1], [i \in 1 .. a.sh[1] |-> [j \in 1 .. a.sh[2] |-> a.x[((i - 1) * a.sh[2]) + j]]])
                      ELSE Bad
    [] OTHER -> Bad
\* a vector with n elements: a number, a list, a column, a row
VectorArg(a, n) ==
  LET fits(x) == IF Len(x) = n THEN Good(x) ELSE Bad IN
  CASE a.t = "num" -> fits(<<a.x>>)
    [] a.t = "list" ->
         IF AllNum(a.x) THEN fits(Nums(a.x))
         ELSE IF AllLists(a.x, 1) THEN fits([i \in DOMAIN a.x |-> a.x[i].x[1].x])
         ELSE IF Len(a.x) = 1 /\ a.x[1].t = "list" /\ AllNum(a.x[1].x) THEN fits(Nums(a.x[1].x))
         ELSE IF \E m \in 2 .. 9 : AllLists(a.x, m) /\ m * Len(a.x) = n THEN Odd
         ELSE Bad
    [] a.t = "arr" -> IF \A i \in DOMAIN a.sh : a.sh[i] > 1 /\ Len(a.sh) > 1 THEN Bad
                      ELSE IF Len(a.sh) \in {1, 2} THEN fits(a.x) ELSE Odd
    [] OTHER -> Bad
ScalarArg(a) ==
  CASE a.t = "num" -> Good(a.x)
    [] a.t = "list" -> IF Len(a.x) # 1 THEN Bad ELSE IF IsNum(a.x[1]) THEN Good(a.x[1].x) ELSE Odd
    [] a.t = "arr" -> IF a.sh = <<1>> \/ a.sh = <<1, 1>> THEN Good(a.x[1]) ELSE IF a.sh # <<>> /\ a.sh[1] # 1 THEN Bad ELSE Odd
    [] OTHER -> Bad

(* A Gaussian: [names (or none), prec, h, g, cov, mean, lw].  The canonical  *)
(* parameters or the covariance parameters, all three of them.               *)
RawGau(e) ==
  LET given(ps) == {p \in ps : ~ None(e.par[p])}
      can == given({"prec", "h", "g"})
      cov == given({"cov", "mean", "lw"})
      n == Len(e.names)
      usecan == can # {}
      M == MatrixArg(IF usecan THEN e.par.prec ELSE e.par.cov, n)
      m == VectorArg(IF usecan THEN e.par.h ELSE e.par.mean, n)
      w == ScalarArg(IF usecan THEN e.par.g ELSE e.par.lw)
  IN IF ~ e.hasnames \/ ~ NoDup(e.names) THEN Rej({})
     ELSE IF can # {} /\ cov # {} THEN (IF Cardinality(can) = 3 \/ Cardinality(cov) = 3 THEN Free ELSE Rej({}))
     ELSE IF Cardinality(can) # 3 /\ Cardinality(cov) # 3 THEN Rej({})
     ELSE IF Bad \in {M, m, w} THEN Rej({})
     ELSE IF Odd \in {M, m, w} THEN Free
     ELSE IF usecan THEN Val(Gau(e.names, M.v, m.v, w.v))
     ELSE Val(GauFromCov(e.names, M.v, m.v, w.v))

(* A table: [names, sp, cards (or none), tab (or none): sequence of           *)
(* <<assignment, value>>, ten (or none): an array of values, nm (or none)].    *)
LOCAL FlatIndex(c, asg) == 1 + ISum([i \in DOMAIN c |-> asg[i] * IProd(SubSeq(c, i + 1, Len(c)))])
LOCAL Inside(c, asg) == \A i \in DOMAIN c : asg[i] \in 0 .. (c[i] - 1)
RawTab(e) ==
  LET n == Len(e.names)
      hascards == ~ None(e.cards)
      hastab == ~ None(e.tab)
      hasten == ~ None(e.ten)
      hasnm == ~ None(e.nm)
      c == IF hascards THEN e.cards.x ELSE e.ten.sh
      keys == IF hastab THEN [i \in DOMAIN e.tab.x |-> e.tab.x[i][1]] ELSE <<>>
      value(i) == LET S == {j \in DOMAIN keys : FlatIndex(c, keys[j]) = i} IN
                  IF S = {} THEN (IF e.sp THEN e.df ELSE "0") ELSE e.tab.x[CHOOSE j \in S : TRUE][2]
      tab(t) == Val([k |-> "tab", v |-> e.names, c |-> c, sp |-> e.sp, df |-> e.df, dx |-> e.df, t |-> t,
                     nm |-> [i \in 1 .. n |-> IF e.sp THEN <<>> ELSE IF hasnm THEN e.nm.x[i]
                                              ELSE [j \in 1 .. c[i] |-> ToString(j - 1)]]])
      distinct(i) == Cardinality(Range(e.nm.x[i]))
  IN IF ~ NoDup(e.names) THEN Rej({})
     ELSE IF hascards /\ Len(e.cards.x) # n THEN Rej({})
     ELSE IF ~ hastab /\ ~ hasten THEN Rej({})
     ELSE IF ~ hascards /\ (e.sp \/ ~ hasten) THEN Rej({})
     ELSE IF hasten /\ ~ e.sp /\ Len(e.ten.sh) # n THEN Rej({})
     ELSE IF hasnm /\ (Len(e.nm.x) # n \/ \E i \in 1 .. n : distinct(i) # c[i]) THEN Rej({})
     ELSE IF hasnm /\ \E i \in 1 .. n : Len(e.nm.x[i]) # c[i] THEN Free
     ELSE IF hastab /\ hasten THEN Free
     ELSE IF hasten THEN (IF hascards /\ e.cards.x # e.ten.sh THEN Free ELSE tab(e.ten.x))
     ELSE IF \E i \in DOMAIN keys : Len(keys[i]) > n THEN (IF e.sp THEN Free ELSE Rej({}))
     ELSE IF \E i \in DOMAIN keys : Len(keys[i]) < n \/ \E j \in DOMAIN keys[i] : keys[i][j] < 0 THEN Free
     ELSE IF \E i \in DOMAIN keys : ~ Inside(c, keys[i]) THEN (IF e.sp THEN Free ELSE Rej({}))
     ELSE tab(TLCEval([i \in 1 .. IProd(c) |-> value(i)]))

\* ------------------------------------------------ arguments of operations
LOCAL DistinctIn(s, t) == NoDup(s) /\ Range(s) \subseteq Range(t)
(* What the arguments of a call on the factor A are: "good" (the call has    *)
(* the meaning of the specification), "bad" (they fit nothing: rejected),    *)
(* "odd" (unspecified).                                                       *)
TabArgs(e, A) ==
  LET over == \E i \in DOMAIN e.vals : i <= Len(e.vars) /\ InSeq(e.vars[i], A.v) /\ e.vals[i] >= A.c[Pos(A.v, e.vars[i])] IN
  CASE e.op = "marg" -> IF e.keep THEN (IF DistinctIn(e.vars, A.v) THEN "good" ELSE "bad")
                        ELSE IF Range(e.vars) \subseteq Range(A.v) THEN "good" ELSE "odd"
    [] e.op = "reorder" -> IF NoDup(e.vars) /\ SameSet(e.vars, A.v) THEN "good" ELSE "bad"
    [] e.op = "reduce" -> IF ~ NoDup(e.vars) \/ \E i \in DOMAIN e.vals : e.vals[i] < 0 THEN "odd"
                          ELSE IF Len(e.vals) # Len(e.vars) THEN (IF A.sp \/ Len(e.vals) > Len(e.vars) \/ ~ DistinctIn(e.vars, A.v) THEN "odd" ELSE "bad")
                          ELSE IF DistinctIn(e.vars, A.v) THEN (IF ~ over THEN "good" ELSE IF A.sp THEN "odd" ELSE "bad")
                          ELSE IF A.sp THEN "bad" ELSE "odd"
    [] e.op = "pot" -> IF ~ SameSet(e.vars, A.v) THEN "bad"
                       ELSE IF ~ NoDup(e.vars) \/ Len(e.vals) # Len(e.vars) \/ \E i \in DOMAIN e.vals : e.vals[i] < 0 THEN "odd"
                       ELSE IF over THEN (IF A.sp THEN "odd" ELSE "bad") ELSE "good"
    [] OTHER -> "good"
GauArgs(e, A) == \* Gaussians and mixtures of them
  CASE e.op = "marg" -> IF e.keep THEN (IF DistinctIn(e.vars, A.v) THEN "good" ELSE "bad")
                        ELSE IF Range(e.vars) \subseteq Range(A.v) THEN "good" ELSE "odd"
    [] e.op = "reduce" -> IF ~ NoDup(e.vars) THEN "odd"
                          ELSE IF ~ (Range(e.vars) \subseteq Range(A.v)) \/ Len(e.vals) # Len(e.vars) THEN "bad" ELSE "good"
    [] e.op = "gpot" -> IF e.vars = <<>> THEN (IF Len(e.vals) = Len(A.v) THEN "good" ELSE IF Len(e.vals) = 1 THEN "odd" ELSE "bad")
                        ELSE IF ~ SameSet(e.vars, A.v) THEN "bad"
                        ELSE IF ~ NoDup(e.vars) THEN "odd"
                        ELSE IF Len(e.vals) # Len(A.v) THEN "bad" ELSE "good"
    [] OTHER -> "good"
NlgArgs(e, A) ==
  CASE e.op = "marg" -> IF e.keep THEN (IF DistinctIn(e.vars, A.v) THEN "good" ELSE "bad")
                        ELSE IF Range(e.vars) \subseteq Range(A.v) THEN "good" ELSE "odd"
    [] e.op = "reduce" -> IF ~ DistinctIn(e.vars, A.v) \/ Len(e.vals) # Len(e.vars) THEN "odd" ELSE "good"
    [] OTHER -> "good"
ArgsOf(e, A) ==
  CASE A.k = "tab" -> TabArgs(e, A)
    [] A.k \in {"gau", "mix"} -> GauArgs(e, A)
    [] A.k \in {"nlg", "nlm"} -> NlgArgs(e, A)
    [] OTHER -> "good"

\* linear Gaussian models: the shapes of the matrices fit the lists of variables
LinArgs(e) ==
  LET cols(M) == IF M = <<>> THEN 0 ELSE Len(M[1]) IN
  IF Range(e.vin) \cap Range(e.vout) # {} \/ ~ NoDup(e.vin) \/ ~ NoDup(e.vout) THEN "bad"
  ELSE IF e.op = "newlin" /\ cols(e.A) # Len(e.vin) THEN "bad"
  ELSE IF Len(e.N) # Len(e.vout) THEN (IF e.op = "newnlg" \/ Len(e.N) = Len(e.A) THEN "bad" ELSE "odd")
  ELSE IF cols(e.N) # Len(e.N) THEN "bad"
  ELSE IF Len(e.A) # Len(e.N) \/ cols(e.A) # Len(e.vin) THEN "odd"
  ELSE "good"
=============================================================================
