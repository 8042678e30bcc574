------------------------------- MODULE Gauss --------------------------------
(***************************************************************************)
(* Gaussian functions exp(-x'Kx/2 + h'x + g) of named real variables:       *)
(* [k |-> "gau", v, K (sequence of rows), h, g], all numbers rational (the  *)
(* constants that need a logarithm are rational approximations, see BigRat).*)
(* K may be singular (conditional densities, vacuous factors) or indefinite *)
(* (quotients): an operation that does not exist then gives Undefined.      *)
(***************************************************************************)
LOCAL INSTANCE TLC
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE BigRat
LOCAL INSTANCE Seqs

Undefined == [k |-> "undef"]
IsUndef(A) == A.k = "undef"
Gau(v, K, h, g) == [k |-> "gau", v |-> v, K |-> K, h |-> h, g |-> g]
GauOne == Gau(<<>>, <<>>, <<>>, "0")

TwoPi == "6283185307179586476925286766559/1000000000000000000000000000000"
Half(x) == RDiv(x, "2")
Dot(a, b) == RSum([i \in DOMAIN a |-> RMul(a[i], b[i])])
MatVec(M, x) == TLCEval([i \in DOMAIN M |-> Dot(M[i], x)])
MatMul(A, B, n) == \* n: number of columns of B
  TLCEval([i \in DOMAIN A |-> [j \in 1 .. n |-> RSum([m \in DOMAIN B |-> RMul(A[i][m], B[m][j])])]])
Transp(A, n) == TLCEval([j \in 1 .. n |-> [i \in DOMAIN A |-> A[i][j]]])
MatAdd(A, B) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> RAdd(A[i][j], B[i][j])]])
MatSub(A, B) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> RSub(A[i][j], B[i][j])]])
VecAdd(a, b) == TLCEval([i \in DOMAIN a |-> RAdd(a[i], b[i])])
VecSub(a, b) == TLCEval([i \in DOMAIN a |-> RSub(a[i], b[i])])
Quad(x, M, y) == Dot(x, MatVec(M, y))
Identity(n) == TLCEval([i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN "1" ELSE "0"]])
Zero(n, m) == TLCEval([i \in 1 .. n |-> [j \in 1 .. m |-> "0"]])

(* Gauss-Jordan elimination without pivoting is enough for matrices with    *)
(* non-zero leading principal minors; with row pivoting for all others.     *)
RECURSIVE GJ(_, _, _, _)
GJ(M, n, i, det) == \* M: n x 2n; returns [ok, M, det]
  IF i > n THEN [ok |-> TRUE, M |-> M, det |-> det]
  ELSE LET cand == {r \in i .. n : M[r][i] # "0"} IN
    IF cand = {} THEN [ok |-> FALSE, M |-> M, det |-> "0"]
    ELSE LET p == CHOOSE r \in cand : \A q \in cand : r <= q
             sw == TLCEval([r \in 1 .. n |-> IF r = i THEN M[p] ELSE IF r = p THEN M[i] ELSE M[r]])
             piv == sw[i][i]
             row == TLCEval([c \in 1 .. (2 * n) |-> RDiv(sw[i][c], piv)])
             nxt == TLCEval([r \in 1 .. n |->
                      IF r = i THEN row
                      ELSE IF sw[r][i] = "0" THEN sw[r]
                      ELSE LET f == sw[r][i] IN TLCEval([c \in 1 .. (2 * n) |-> RSub(sw[r][c], RMul(f, row[c]))])])
         IN GJ(nxt, n, i + 1, RMul(det, IF p = i THEN piv ELSE RNeg(piv)))
Invert(A) == \* [ok, inv, det]
  LET n == Len(A)
      r == GJ(TLCEval([i \in 1 .. n |-> [j \in 1 .. (2 * n) |->
                IF j <= n THEN A[i][j] ELSE IF j = n + i THEN "1" ELSE "0"]]), n, 1, "1")
  IN IF ~ r.ok THEN [ok |-> FALSE, inv |-> <<>>, det |-> "0"]
     ELSE [ok |-> TRUE, det |-> r.det,
           inv |-> TLCEval([i \in 1 .. n |-> [j \in 1 .. n |-> RShort(r.M[i][n + j])]])]

\* The same function with the variables v, which contain those of A.
GauExt(A, v) ==
  LET p == TLCEval([i \in DOMAIN v |-> IF InSeq(v[i], A.v) THEN Pos(A.v, v[i]) ELSE 0]) IN
  Gau(v, TLCEval([i \in DOMAIN v |-> [j \in DOMAIN v |-> IF p[i] = 0 \/ p[j] = 0 THEN "0" ELSE A.K[p[i]][p[j]]]]),
      TLCEval([i \in DOMAIN v |-> IF p[i] = 0 THEN "0" ELSE A.h[p[i]]]), A.g)
GauReorder(A, v) == GauExt(A, v)

GauMul(A, B) == LET v == Union(A.v, B.v) a == GauExt(A, v) b == GauExt(B, v) IN
                Gau(v, MatAdd(a.K, b.K), VecAdd(a.h, b.h), RAdd(a.g, b.g))
GauDiv(A, B) == LET v == Union(A.v, B.v) a == GauExt(A, v) b == GauExt(B, v) IN
                Gau(v, MatSub(a.K, b.K), VecSub(a.h, b.h), RSub(a.g, b.g))

GauReduce(A, vars, vals) ==
  LET rest == Without(A.v, vars)
      a == GauExt(A, rest \o vars)
      n == Len(rest)
      m == Len(vars)
      Koo == TLCEval([i \in 1 .. m |-> [j \in 1 .. m |-> a.K[n + i][n + j]]])
      ho == TLCEval([i \in 1 .. m |-> a.h[n + i]])
  IN Gau(rest, TLCEval([i \in 1 .. n |-> [j \in 1 .. n |-> a.K[i][j]]]),
         TLCEval([i \in 1 .. n |-> RSub(a.h[i], RSum([j \in 1 .. m |-> RMul(a.K[i][n + j], vals[j])]))]),
         RAdd(a.g, RSub(Dot(ho, vals), Half(Quad(vals, Koo, vals)))))

\* Integrate out one variable: needs a positive coefficient.  (What is too close to singular for floating point numbers
\* is not considered either.)
SmallPivot == "1/10000"
GauOut(A, x) ==
  IF IsUndef(A) THEN A
  ELSE LET p == Pos(A.v, x) d == A.K[p][p] IN
    IF ~ RLt(SmallPivot, d) THEN Undefined
    ELSE LET rest == Without(A.v, <<x>>)
             q == TLCEval([i \in DOMAIN rest |-> Pos(A.v, rest[i])])
             r == TLCEval([i \in DOMAIN rest |-> RShort(RDiv(A.K[q[i]][p], d))])
         IN Gau(rest,
                TLCEval([i \in DOMAIN rest |-> [j \in DOMAIN rest |->
                   RShort(RSub(A.K[q[i]][q[j]], RMul(r[i], A.K[p][q[j]])))]]),
                TLCEval([i \in DOMAIN rest |-> RShort(RSub(A.h[q[i]], RMul(r[i], A.h[p])))]),
                RShort(RAdd(A.g, Half(RAdd(RLn(RDiv(TwoPi, d)), RDiv(RMul(A.h[p], A.h[p]), d))))))
GauMarg(A, keep) ==
  LET r == FoldLeft(GauOut, A, Without(A.v, keep)) IN IF IsUndef(r) THEN r ELSE GauExt(r, keep)

\* The logarithm of the integral over all variables ("?" if it does not exist).
GauLogWeight(A) == LET r == GauMarg(A, <<>>) IN IF IsUndef(r) THEN "?" ELSE r.g
GauProper(A) == ~ IsUndef(GauMarg(A, <<>>))
GauNorm(A) == LET w == GauLogWeight(A) IN IF w = "?" THEN Undefined ELSE [A EXCEPT !.g = RSub(A.g, w)]
GauVacuous(A) == \A i, j \in DOMAIN A.v : RNear(A.K[i][j], "0", "0", "1/1000000000")

\* covariance form
GauCov(A) == Invert(A.K).inv
GauMean(A) == MatVec(GauCov(A), A.h)
GauFromCov(v, S, mu, lw) ==
  LET r == Invert(S) h == MatVec(r.inv, mu) IN
  Gau(v, r.inv, h, RSub(lw, Half(RAdd(Dot(mu, h), RLn(RMul(r.det, FoldLeft(LAMBDA a, b : RMul(a, TwoPi), "1", v)))))))

GauLogAt(A, vars, vals) == GauReduce(A, vars, vals).g

\* KL divergence between the normalised versions of two proper Gaussians over the same variables.
GauKL(P, Q) ==
  LET q == GauExt(Q, P.v)
      ip == Invert(P.K)
      iq == Invert(q.K)
      mp == MatVec(ip.inv, P.h)
      mq == MatVec(iq.inv, q.h)
      d == VecSub(mp, mq)
      tr == RSum([i \in DOMAIN P.v |-> Dot(q.K[i], ip.inv[i])])
  IN Half(RSum(<<RLn(RDiv(ip.det, iq.det)), tr, Quad(d, q.K, d), RNeg(RInt(Len(P.v)))>>))

\* The density of x_out given x_in: normal with mean A x_in and covariance N.
GauLinear(Am, N, vin, vout) ==
  LET r == Invert(N)
      n == Len(vin)
      AtP == MatMul(Transp(Am, n), r.inv, Len(vout))
      Kaa == MatMul(AtP, Am, n)
      K == TLCEval([i \in 1 .. (n + Len(vout)) |-> [j \in 1 .. (n + Len(vout)) |->
             IF i <= n /\ j <= n THEN Kaa[i][j]
             ELSE IF i <= n THEN RNeg(AtP[i][j - n])
             ELSE IF j <= n THEN RNeg(AtP[j][i - n])
             ELSE r.inv[i - n][j - n]]])
  IN Gau(vin \o vout, K, Const(n + Len(vout), "0"),
         RNeg(Half(RLn(RMul(r.det, FoldLeft(LAMBDA a, b : RMul(a, TwoPi), "1", vout))))))

(* Expected against observed parameters: 1e-6 relative to the size of the   *)
(* parameter block.                                                          *)
LOCAL BigOf(S) == FoldLeft(RMax, "1", S)
NearNum(e, o, scale) == IsRat(o) /\ RNear(e, o, "0", RMul(scale, "1/1000000"))
MatNear(E, O) ==
  LET sc == BigOf(TLCEval([i \in DOMAIN E |-> BigOf(TLCEval([j \in DOMAIN E[i] |-> RAbs(E[i][j])]))])) IN
  \A i \in DOMAIN E : \A j \in DOMAIN E[i] : NearNum(E[i][j], O[i][j], sc)
VecNear(e, o) == LET sc == BigOf(TLCEval([i \in DOMAIN e |-> RAbs(e[i])])) IN \A i \in DOMAIN e : NearNum(e[i], o[i], sc)
NumNear(e, o) == e = "?" \/ (IsRat(o) /\ RNear(e, o, "1/1000000", "1/1000000"))
GauDefined(O) == /\ \A i \in DOMAIN O.v : IsRat(O.h[i]) /\ \A j \in DOMAIN O.v : IsRat(O.K[i][j])
                 /\ IsRat(O.g)
GauNearUpToScale(E, O) ==
  /\ NoDup(O.v) /\ SameSet(E.v, O.v) /\ GauDefined(O)
  /\ LET o == GauExt(O, E.v) IN MatNear(E.K, o.K) /\ VecNear(E.h, o.h)
GauNear(E, O) == GauNearUpToScale(E, O) /\ NumNear(E.g, O.g)
=============================================================================
