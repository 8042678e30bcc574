------------------------------- MODULE GenGau --------------------------------
(***************************************************************************)
(* Behaviours of FactorPool for Gaussian factors, mixtures and factorised   *)
(* factors: enumerated programs (every structure of the operands) and        *)
(* pseudo-random programs that execute the specification.                    *)
(***************************************************************************)
EXTENDS FactorPool, GenBase, Json

CONSTANTS SEED, N, D, MODE

VARIABLES sid, prog, pool, key
vars == <<sid, prog, pool, key>>

GV == <<"b", "a", "x10", "x2">>
ScopeKey(v) == [i \in DOMAIN v |-> Pos(GV, v[i])]

\* ------------------------------------------------------------- parameters
\* quarters in -lim/4 .. lim/4
Quarter(ky, i, lim) == RDiv(RSub(RInt(Hash(ky \o <<61, i>>, 2 * lim + 1)), RInt(lim)), "4")
\* a symmetric matrix L L' from a lower triangular L; deg: how many diagonal elements of L are zero
Chol(ky, n) ==
  TLCEval([i \in 1 .. n |-> [j \in 1 .. n |->
    IF j > i THEN "0"
    ELSE IF i = j THEN <<"1/2", "3/4", "1", "1", "5/4", "3/2", "2">>[1 + Hash(ky \o <<62, i>>, 7)]
    ELSE <<"0", "0", "1/4", "1/2", "-1/2", "-1", "3/4">>[1 + Hash(ky \o <<63, i, j>>, 7)]]])
Spd(ky, n) == LET L == Chol(ky, n) IN MatMul(L, Transp(L, n), n)
\* positive semidefinite of rank r
Psd(ky, n, r) ==
  LET L == TLCEval([i \in 1 .. n |-> [j \in 1 .. r |-> Quarter(ky, 40 + 7 * i + j, 6)]]) IN MatMul(L, Transp(L, r), n)

NewGau(h, v, ky, form) ==
  [op |-> "newgau", out |-> h, v |-> v, form |-> form, M |-> Spd(ky, Len(v)),
   m |-> TLCEval([i \in DOMAIN v |-> Quarter(ky, i, 12)]), w |-> Quarter(ky, 30, 8), lists |-> v # <<>> /\ Hash(ky \o <<64>>, 4) = 0]
NewSing(h, v, ky) == \* a canonical Gaussian without an integral
  LET n == Len(v)
      K == Psd(ky, n, n - 1)
      x == TLCEval([i \in DOMAIN v |-> Quarter(ky, i, 8)])
  IN [op |-> "newgau", out |-> h, v |-> v, form |-> "can", M |-> K, m |-> MatVec(K, x), w |-> Quarter(ky, 30, 8), lists |-> FALSE]
NewVac(h, v, ky) == [op |-> "newvac", out |-> h, v |-> v, w |-> Quarter(ky, 30, 8)]
NewLin(h, vin, vout, ky) ==
  [op |-> "newlin", out |-> h, vin |-> vin, vout |-> vout, N |-> Spd(ky, Len(vout)),
   A |-> TLCEval([i \in DOMAIN vout |-> [j \in DOMAIN vin |-> Quarter(ky, 70 + 5 * i + j, 6)]])]
\* the same function, other form or other variable order
ReForm(h, A, ky) ==
  LET v == Shuffle(ky, 81, A.v)
      B == GauExt(A, v)
  IN IF GauWell(A) /\ Chance(ky, 82, 1, 2)
     THEN [op |-> "newgau", out |-> h, v |-> v, form |-> "cov", M |-> GauCov(B), m |-> GauMean(B), w |-> GauLogWeight(B), lists |-> FALSE]
     ELSE [op |-> "newgau", out |-> h, v |-> v, form |-> "can", M |-> B.K, m |-> B.h, w |-> B.g, lists |-> FALSE]
\* one parameter changed by a lot or by much less than the tolerance
Tweak(h, A, ky) ==
  LET c == ReForm(h, A, ky)
      d == IF Chance(ky, 83, 2, 3) THEN OneOf(ky, 84, <<"1/2", "-1/4", "1">>) ELSE OneOf(ky, 89, <<"1/1000000000000", "1/1000000", "1/1000">>)
      i == 1 + R(ky, 85, Len(c.v))
      j == 1 + R(ky, 86, Len(c.v))
      big == <<"1/2", "1">>[1 + R(ky, 87, 2)]
      Bump(x) == RAdd(x, d)
  IN CASE R(ky, 88, 3) = 0 -> [c EXCEPT !.w = Bump(c.w)]
       [] R(ky, 88, 3) = 1 -> [c EXCEPT !.m = [c.m EXCEPT ![i] = Bump(c.m[i])]]
       [] OTHER -> [c EXCEPT !.M = [c.M EXCEPT ![i] = [c.M[i] EXCEPT ![i] = RAdd(c.M[i][i], IF RLt(RAbs(d), "1/1000") THEN d ELSE big)]]]

Tols == << <<"1/1000000000", "1/1000000000">>, <<"0", "1/100">>, <<"1/20", "0">>, <<"1/100000", "1/100000">>, <<"0", "1/10000000">> >>

\* ------------------------------------------------------------ enumeration
Key(S) == <<SEED>> \o S
V3 == {"b", "a", "x10"}
BinProg(a, b, fa, fb) ==
  LET ka == Key(<<1, fa, fb>> \o ScopeKey(a) \o <<0>> \o ScopeKey(b))
      kb == Key(<<2, fa, fb>> \o ScopeKey(a) \o <<0>> \o ScopeKey(b))
      form(i, v) == IF v = <<>> \/ i = 0 THEN "can" ELSE "cov"
  IN <<NewGau(1, a, ka, form(fa, a)), NewGau(2, b, kb, form(fb, b)),
       [op |-> "mul", a |-> 1, b |-> 2, out |-> 3],
       [op |-> "div", a |-> 1, b |-> 2, out |-> 4],
       [op |-> "cancel", a |-> 3, b |-> 2, out |-> 5],
       [op |-> "mul", a |-> 4, b |-> 2, out |-> 6]>>
\* comparisons between every pair of variable orders and forms
CmpProg(a, b, fa, fb) ==
  LET p == BinProg(a, b, fa, fb)
      c == NewGau(3, b, Key(<<1, fa, fb>> \o ScopeKey(a) \o <<0>> \o ScopeKey(b)), IF fb = 0 THEN "can" ELSE "cov")
      A == GauNewOutcome(p[1], <<>>).v
      same == IF SameSet(a, b) THEN ReForm(4, GauExt(A, b), Key(<<5, fa, fb>> \o ScopeKey(b))) ELSE p[2]
      q(x, y) == <<[op |-> "eq", a |-> x, b |-> y, out |-> 0, alias |-> (x + y) % 2], [op |-> "kl", a |-> x, b |-> y, out |-> 0]>>
  IN <<p[1], p[2], [c EXCEPT !.form = p[2].form], [same EXCEPT !.out = 4]>>
     \o q(1, 2) \o q(2, 1) \o q(1, 3) \o q(3, 1) \o q(1, 4) \o q(4, 1) \o <<[op |-> "ne", a |-> 1, b |-> 4, out |-> 0]>>
\* one Gaussian against variants of it that differ in exactly one respect: every element of every parameter of one form
Variants(c) ==
  LET n == Len(c.v)
      Neg(x) == IF x = "0" THEN "1" ELSE RNeg(x)
      off == {i \in (1 .. n) \X (1 .. n) : i[1] < i[2]}
      Off(i, x) == [c EXCEPT !.M = [a \in 1 .. n |-> [b \in 1 .. n |-> IF {a, b} = {i[1], i[2]} THEN x ELSE c.M[a][b]]]]
  IN {[c EXCEPT !.w = RAdd(c.w, "1/4")], [c EXCEPT !.w = Neg(c.w)]}
     \cup {[c EXCEPT !.m = [c.m EXCEPT ![i] = RAdd(c.m[i], "3/4")]] : i \in 1 .. n}
     \cup {[c EXCEPT !.m = [c.m EXCEPT ![i] = Neg(c.m[i])]] : i \in 1 .. n}
     \cup {[c EXCEPT !.M = [c.M EXCEPT ![i] = [c.M[i] EXCEPT ![i] = RAdd(c.M[i][i], "1/2")]]] : i \in 1 .. n}
     \cup {Off(i, RNeg(c.M[i[1]][i[2]])) : i \in {x \in off : c.M[x[1]][x[2]] # "0"}}
     \cup {Off(i, RAdd(c.M[i[1]][i[2]], "1/8")) : i \in off}
     \cup {[c EXCEPT !.m = [i \in 1 .. n |-> c.m[(i % n) + 1]]], c}
     \cup {[c EXCEPT !.w = RAdd(c.w, "1/1000000")], [c EXCEPT !.w = RMul(c.w, "129/128")], [c EXCEPT !.m[n] = RMul(c.m[n], "65/64")],
           [c EXCEPT !.m[1] = RAdd(c.m[1], "1/1000")], [c EXCEPT !.M[n][n] = RMul(c.M[n][n], "513/512")]}
TweakProg(v, f, c, d) ==
  LET ky == Key(<<7, f>> \o ScopeKey(v))
      B == GauNewOutcome(d, <<>>)
      q == <<[op |-> "eq", a |-> 1, b |-> 2, out |-> 0], [op |-> "kl", a |-> 1, b |-> 2, out |-> 0],
             [op |-> "eq", a |-> 2, b |-> 1, out |-> 0], [op |-> "kl", a |-> 2, b |-> 1, out |-> 0],
             [op |-> "ne", a |-> 1, b |-> 2, out |-> 0]>>
           \o [j \in 1 .. (2 * Len(Tols)) |-> [op |-> "eq", a |-> 1 + (j % 2), b |-> 2 - (j % 2), alias |-> 0, out |-> 0, tol |-> Tols[(j + 1) \div 2]]]
      \* the second one in the other form and in another variable order as well
      alt == IF B.o = "val" /\ GauWell(B.v) THEN <<[ReForm(3, B.v, ky) EXCEPT !.out = 3],
                 [op |-> "eq", a |-> 1, b |-> 3, out |-> 0], [op |-> "kl", a |-> 1, b |-> 3, out |-> 0],
                 [op |-> "eq", a |-> 3, b |-> 1, out |-> 0]>> ELSE <<>>
  IN IF B.o = "val" /\ GauWell(B.v) THEN <<c, [d EXCEPT !.out = 2]>> \o q \o alt ELSE <<c>>
TweakPrograms ==
  UNION {LET c == NewGau(1, v, Key(<<8, f, x>> \o ScopeKey(v)), <<"can", "cov">>[1 + f]) IN
         {TweakProg(v, f, c, d) : d \in Variants(c)} : v \in {SubSeq(GV, 1, n) : n \in 1 .. 3} \cup {<<"x2", "x10">>}, f \in {0, 1}, x \in 1 .. 3}
  \* weights outside the range of floating point numbers
  \cup UNION {LET c == [NewGau(1, v, Key(<<9, f>> \o ScopeKey(v)), <<"can", "cov">>[1 + f]) EXCEPT !.w = w] IN
         {TweakProg(v, f, c, [c EXCEPT !.w = RAdd(w, d)]) : d \in {"0", "1/4", "100", "-100"}} :
         v \in {SubSeq(GV, 1, n) : n \in 1 .. 2}, f \in {0, 1}, w \in {"800", "-800", "1500"}}
UnaryProg(v, f) ==
  LET ky == Key(<<3, f>> \o ScopeKey(v))
      ks == SetToSeq(OrderedSubsets(Range(v)))
      n == Len(ks)
      val(s) == [i \in DOMAIN s |-> Quarter(ky \o ScopeKey(s), i, 8)]
  IN <<NewGau(1, v, ky, IF f = 0 THEN "can" ELSE "cov")>>
     \o [i \in DOMAIN ks |-> [op |-> "marg", a |-> 1, vars |-> ks[i], keep |-> Hash(ky \o <<i>>, 3) > 0, out |-> 1 + i]]
     \o [i \in DOMAIN ks |-> [op |-> "reduce", a |-> 1, vars |-> ks[i], vals |-> val(ks[i]), out |-> 1 + n + i]]
     \o <<[op |-> "norm", a |-> 1, out |-> 2 + 2 * n], [op |-> "copy", a |-> 1, out |-> 3 + 2 * n],
          [op |-> "par", a |-> 2 + 2 * n, what |-> "w", out |-> 0], [op |-> "par", a |-> 1, what |-> "lw", out |-> 0]>>
\* every order of queries of the two forms on one object
QueryProg(f, o, n) ==
  LET v == SubSeq(GV, 1, n)
      ky == Key(<<4, f, n>>)
      q(w) == CASE w = 1 -> [op |-> "par", a |-> 1, what |-> "prec", out |-> 0]
                [] w = 2 -> [op |-> "par", a |-> 1, what |-> "cov", out |-> 0]
                [] w = 3 -> [op |-> "gpot", a |-> 1, vars |-> <<>>, vals |-> [i \in DOMAIN v |-> Quarter(ky, 90 + i, 8)], lg |-> TRUE, out |-> 0]
                [] w = 4 -> [op |-> "par", a |-> 1, what |-> "w", out |-> 0]
                [] w = 5 -> [op |-> "sample", a |-> 1, n |-> 2000, out |-> 0]
                [] OTHER -> [op |-> "eq", a |-> 1, b |-> 2, out |-> 0, alias |-> 0]
      src == IF f < 2 THEN <<NewGau(1, v, ky, IF f = 0 THEN "can" ELSE "cov")>> \o <<NewGau(2, v, ky, "cov")>>
             ELSE <<NewGau(3, v, ky, "cov"), NewGau(2, v, ky, "can"), [op |-> "mul", a |-> 3, b |-> 2, out |-> 1]>>
  IN src \o [i \in DOMAIN o |-> q(o[i])] \o <<[op |-> "copy", a |-> 1, out |-> 9], [op |-> "mul", a |-> 1, b |-> 9, out |-> 10]>>
LinProg(vin, vout, k) ==
  LET ky == Key(<<6, k>> \o ScopeKey(vin) \o <<0>> \o ScopeKey(vout))
      pr == Shuffle(ky, 5, vin)
      all == vin \o vout
  IN <<NewLin(1, vin, vout, ky), NewGau(2, pr, ky \o <<1>>, <<"can", "cov">>[1 + k]),
       [op |-> "mul", a |-> IF k = 0 THEN 1 ELSE 2, b |-> IF k = 0 THEN 2 ELSE 1, out |-> 3],
       [op |-> "marg", a |-> 3, vars |-> Shuffle(ky, 6, vout), keep |-> TRUE, out |-> 4],
       [op |-> "par", a |-> 4, what |-> "lw", out |-> 0], [op |-> "par", a |-> 2, what |-> "lw", out |-> 0],
       [op |-> "gpot", a |-> 1, vars |-> <<>>, lg |-> TRUE, vals |-> [i \in DOMAIN all |-> Quarter(ky, 90 + i, 6)], out |-> 0],
       [op |-> "reduce", a |-> 1, vars |-> vin, vals |-> [i \in DOMAIN vin |-> Quarter(ky, 100 + i, 6)], out |-> 5],
       [op |-> "par", a |-> 5, what |-> "mean", out |-> 0], [op |-> "par", a |-> 5, what |-> "cov", out |-> 0],
       [op |-> "par", a |-> 5, what |-> "w", out |-> 0]>>
\* factorised factors over every structure of three scopes, with one or both forms of their factors computed before
FScopes == << <<"b">>, <<"a">>, <<"x10">>, <<"a", "b">>, <<"x10", "b">>, <<"a", "x10">> >>
FacProg(sc, f) ==
  LET ky == Key(<<9, f>> \o sc)
      n == Len(sc)
      vs == FScopes[sc[1]] \o (IF n > 1 THEN FScopes[sc[2]] ELSE <<>>) \o (IF n > 2 THEN FScopes[sc[3]] ELSE <<>>)
      V == SelectSeq(GV, LAMBDA x : x \in Range(vs))
      both(i) == ((f \div 2) % 2) = 0 \/ i # 2
      subs == SetToSeq({w \in OrderedSubsets(Range(V)) : w # <<>> /\ Len(w) < Len(V)})
      val(w) == [i \in DOMAIN w |-> Quarter(ky \o ScopeKey(w), i, 8)]
  IN [i \in 1 .. n |-> NewGau(i, FScopes[sc[i]], ky \o <<i>>, <<"can", "cov">>[1 + ((f + i) % 2)])]
     \o FlattenSeq([i \in 1 .. n |-> IF both(i) THEN <<[op |-> "par", a |-> i, what |-> <<"cov", "prec">>[1 + ((f + i) % 2)], out |-> 0]>> ELSE <<>>])
     \o <<[op |-> "newfac", hs |-> [i \in 1 .. n |-> i], out |-> 4]>>
     \o [i \in DOMAIN subs |-> [op |-> "reduce", a |-> 4, vars |-> subs[i], vals |-> val(subs[i]), alias |-> i % 2, out |-> 100 + i]]
     \o [i \in DOMAIN subs |-> [op |-> "marg", a |-> 4, vars |-> subs[i], keep |-> TRUE, out |-> 200 + i]]
     \o [i \in 1 .. n |-> [op |-> "div", a |-> 4, b |-> i, out |-> 300 + i]]
     \o [i \in 1 .. n |-> [op |-> "mul", a |-> 4, b |-> i, out |-> 310 + i]]
     \o <<[op |-> "norm", a |-> 4, out |-> 5], [op |-> "joint", a |-> 4, out |-> 6], [op |-> "copy", a |-> 4, out |-> 7],
          [op |-> "eq", a |-> 4, b |-> 7, out |-> 0], [op |-> "par", a |-> 4, what |-> "mean", out |-> 0],
          [op |-> "par", a |-> 4, what |-> "cov", out |-> 0]>>
FacPrograms(F, lens) == {FacProg(sc, f) : sc \in UNION {[1 .. n -> DOMAIN FScopes] : n \in lens}, f \in F}
\* nonlinear Gaussians: four operations in every order, the last ones query
NewNlg(h, vin, vout, ky) ==
  [op |-> "newnlg", out |-> h, vin |-> vin, vout |-> vout, N |-> Spd(ky, Len(vout)),
   A |-> TLCEval([i \in DOMAIN vout |-> [j \in DOMAIN vin |-> Quarter(ky, 70 + 5 * i + j, 6)]]),
   m |-> TLCEval([i \in DOMAIN vout |-> Quarter(ky, 120 + i, 6)]), w |-> IF Chance(ky, 65, 1, 2) THEN "0" ELSE Quarter(ky, 66, 6),
   byname |-> Hash(ky \o <<67>>, 3) = 0]
NlgProg(vin, vout, o, f) ==
  LET ky == Key(<<12, f>> \o o \o ScopeKey(vin) \o <<0>> \o ScopeKey(vout))
      oi == Some(ky, 1, vin, 1, 2)
      oo == Some(ky, 5, vout, 1, 2)
      val(v, k) == [i \in DOMAIN v |-> Quarter(ky, k + i, 8)]
      step(i) ==
        CASE o[i] = 1 -> [op |-> "mul", a |-> 10 + i, b |-> 1, alias |-> f, out |-> 11 + i]
          [] o[i] = 2 -> [op |-> "mul", a |-> 10 + i, b |-> 2, alias |-> 1 - f, out |-> 11 + i]
          [] o[i] = 3 -> [op |-> "reduce", a |-> 10 + i, vars |-> oi, vals |-> val(oi, 130), alias |-> 0, out |-> 11 + i]
          [] OTHER -> [op |-> "reduce", a |-> 10 + i, vars |-> oo, vals |-> val(oo, 140), alias |-> 0, out |-> 11 + i]
      n == Len(o)
      free == SelectSeq(vin \o vout, LAMBDA x : ~ (3 \in Range(o) /\ InSeq(x, oi)) /\ ~ (4 \in Range(o) /\ InSeq(x, oo)))
      prior == IF f = 0 THEN Shuffle(ky, 9, vin) ELSE Some(ky, 9, vin, 1, 3)
      upd == IF f = 0 THEN Shuffle(ky, 11, vout) ELSE Some(ky, 11, vout, 1, 3)
      top == 11 + n
      q(h, i) ==
        [j \in DOMAIN free |-> [op |-> "marg", a |-> h, vars |-> <<free[j]>>, keep |-> TRUE, out |-> i + j]]
        \o <<[op |-> "marg", a |-> h, vars |-> Some(ky, 13, free, 1, 3), keep |-> TRUE, out |-> i + 5], [op |-> "joint", a |-> h, out |-> i + 6],
             [op |-> "norm", a |-> h, out |-> i + 7], [op |-> "par", a |-> h, what |-> "lw", out |-> 0],
             [op |-> "par", a |-> h, what |-> <<"cov", "prec", "h", "mean", "g">>[1 + R(ky, i, 5)], out |-> 0]>>
  IN <<NewGau(1, prior, ky \o <<1>>, "can"), NewGau(2, upd, ky \o <<2>>, <<"can", "cov">>[1 + f]), NewNlg(11, vin, vout, ky)>>
     \o [i \in 1 .. n |-> step(i)] \o q(top, 20)
     \o <<[op |-> "copy", a |-> top, out |-> 30], [op |-> "eq", a |-> top, b |-> 30, out |-> 0],
          [op |-> "div", a |-> top, b |-> 2, out |-> 31]>> \o q(31, 40)
     \o <<[op |-> "div", a |-> 31, b |-> 1, out |-> 32], [op |-> "mul", a |-> 32, b |-> 1, alias |-> 0, out |-> 33],
          [op |-> "eq", a |-> 31, b |-> 33, out |-> 0], [op |-> "sigma", a |-> 1, out |-> 0]>>
NlgOrders == {o \in UNION {[1 .. n -> 1 .. 4] : n \in 2 .. 4} : NoDup(o) /\ {1, 2} \subseteq Range(o)}
SigmaProg(v, f) ==
  LET ky == Key(<<13, f>> \o ScopeKey(v)) IN
  <<NewGau(1, v, ky, IF f = 0 THEN "can" ELSE "cov"), [op |-> "sigma", a |-> 1, out |-> 0], [op |-> "sigma", a |-> 1, out |-> 0]>>
(* Quotients of mixtures: wide divisors, whose components are multiples of one function (dv = 0) or not. *)
Plus(M, d) == TLCEval([i \in DOMAIN M |-> [j \in DOMAIN M |-> IF i = j THEN RAdd(M[i][j], d) ELSE M[i][j]]])
Times(M, d) == TLCEval([i \in DOMAIN M |-> [j \in DOMAIN M |-> RMul(M[i][j], d)]])
MixDivProg(v, w, na, dv, cm) ==
  LET ky == Key(<<14, na, dv>> \o ScopeKey(v) \o <<0>> \o ScopeKey(w))
      num(i) == LET G == NewGau(i, v, ky \o <<i>>, "can")
                    K == Plus(G.M, "1")
                    \* means far apart every other time
                    x == [j \in DOMAIN v |-> RAdd(Quarter(ky, 90 + i + 3 * j, 8), IF na % 2 = 0 THEN RMul("12", RInt(i)) ELSE "0")]
                    u == TLCEval(x)
                \* (moderate values at the peak)
                IN [G EXCEPT !.M = K, !.m = MatVec(K, u), !.w = RSub(G.w, Half(Quad(u, K, u)))]
      den(i) == LET j == IF dv = 0 THEN 1 ELSE i
                    K == Times(Plus(NewGau(i, w, ky \o <<20 + j>>, "can").M, "1"), "1/24")
                IN [NewGau(10 + i, w, ky \o <<20 + j>>, "can") EXCEPT !.M = K, !.w = Quarter(ky, 50 + i, 8),
                      !.m = MatVec(K, TLCEval([m \in DOMAIN w |-> Quarter(ky, 60 + j + 5 * m, 8)]))]
  IN [i \in 1 .. na |-> num(i)] \o [i \in 1 .. 2 |-> den(i)]
     \o <<[op |-> "newmix", hs |-> [i \in 1 .. na |-> i], cm |-> cm, out |-> 20], [op |-> "newmix", hs |-> <<11, 12>>, cm |-> 0, out |-> 21],
          [op |-> "div", a |-> 20, b |-> 21, alias |-> 0, out |-> 22], [op |-> "cancel", a |-> 20, b |-> 21, alias |-> 0, out |-> 23],
          [op |-> "div", a |-> 20, b |-> 11, alias |-> 1, out |-> 24], [op |-> "norm", a |-> 20, out |-> 25],
          [op |-> "div", a |-> 25, b |-> 21, alias |-> 0, out |-> 26]>>
Splits == {s \in OrderedSubsets(Range(GV)) \X OrderedSubsets(Range(GV)) :
             s[1] # <<>> /\ s[2] # <<>> /\ Range(s[1]) \cap Range(s[2]) = {}}

Enumerated(m) ==
  CASE m = "enum-gau-bin" -> {BinProg(a, b, f[1], f[2]) : a \in OrderedSubsets(V3), b \in OrderedSubsets(V3), f \in {<<0, 1>>, <<1, 0>>}}
    [] m = "enum-gau-cmp" -> {CmpProg(a, b, f[1], f[2]) : a \in OrderedSubsets(V3) \ {<<>>}, b \in OrderedSubsets(V3) \ {<<>>},
                                                          f \in {0, 1} \X {0, 1}}
    [] m = "enum-gau-tweak" -> TweakPrograms
    [] m = "enum-gau-unary" -> {UnaryProg(v, f) : v \in OrderedSubsets(V3) \ {<<>>}, f \in {0, 1}}
    [] m = "enum-gau-unary4" -> {UnaryProg(v, f) : v \in Orders(Range(GV)), f \in {0, 1}}
    [] m = "enum-gau-query" -> {QueryProg(f, o, n) : f \in 0 .. 2, n \in 1 .. 2, o \in UNION {Orders(T) : T \in {x \in SUBSET (1 .. 6) : Cardinality(x) = 3}}}
    [] m = "enum-gau-query6" -> {QueryProg(f, o, 2) : f \in 0 .. 2, o \in Orders(1 .. 6)}
    [] m = "enum-fac" -> FacPrograms({0}, {1, 3}) \cup FacPrograms(0 .. 3, {2})
    [] m = "enum-fac3" -> FacPrograms(1 .. 3, {3})
    [] m = "enum-nlg" -> {NlgProg(s[1], s[2], o, f) : s \in {x \in Splits : Range(x[1]) \cup Range(x[2]) \subseteq V3}, o \in NlgOrders, f \in {0, 1}}
    [] m = "enum-nlg4" -> {NlgProg(s[1], s[2], o, f) : s \in {x \in Splits : Len(x[1]) + Len(x[2]) = 4}, o \in {w \in NlgOrders : Len(w) = 4 /\ (w[1] < w[2])}, f \in {0, 1}}
    [] m = "enum-sigma" -> {SigmaProg(v, f) : v \in OrderedSubsets(Range(GV)) \ {<<>>}, f \in {0, 1}}
    [] m = "enum-mixdiv" -> UNION {UNION {{MixDivProg(v, w, na, dv, cm) : na \in 1 .. 3, dv \in {0, 1}, cm \in 0 .. 2} :
                                          w \in {x \in OrderedSubsets(Range(v)) : x # <<>>}} : v \in {x \in OrderedSubsets(V3) : Len(x) \in 1 .. 2}}
    [] m = "enum-lin" -> {LinProg(s[1], s[2], k) : s \in {x \in Splits : Len(x[1]) + Len(x[2]) < 4}, k \in {0, 1}}
    [] m = "enum-lin4" -> {LinProg(s[1], s[2], k) : s \in {x \in Splits : Len(x[1]) + Len(x[2]) = 4}, k \in {0, 1}}
    [] OTHER -> {}

\* ----------------------------------------------------- random programs
Fam == CASE MODE = "rand-gau" -> "gau" [] MODE = "rand-forms" -> "forms" [] MODE = "rand-gcmp" -> "cmp" [] MODE = "rand-gframe" -> "frame"
         [] MODE = "rand-weight" -> "weight" [] MODE = "rand-lin" -> "lin" [] MODE = "rand-mix" -> "mix" [] MODE = "rand-fac" -> "fac"
         [] MODE = "rand-nlg" -> "nlg" [] MODE = "rand-nframe" -> "nframe"
         [] MODE = "rand-plot" -> "plot"
         [] MODE = "rand-mframe" -> "mframe" [] MODE = "rand-fframe" -> "fframe" [] OTHER -> ""
Mixes == Fam \in {"mix", "mframe", "plot"}
Nlgs == Fam \in {"nlg", "nframe"}
Facs == Fam \in {"fac", "fframe"}

Ops == CASE Fam = "gau" -> <<"mul", "mul", "mul", "div", "marg", "marg", "marg", "reduce", "reduce", "norm", "copy", "cancel", "par", "gpot">>
         [] Fam = "forms" -> <<"par", "par", "par", "gpot", "gpot", "eq", "sample", "kl", "mul", "marg", "norm", "copy", "reduce", "div", "cform", "show">>
         [] Fam = "cmp" -> <<"eq", "eq", "eq", "ne", "kl", "kl", "par", "reform", "reform", "tweak", "tweak", "norm", "copy", "mul", "marg">>
         [] Fam = "frame" -> <<"mul", "div", "cancel", "marg", "reduce", "norm", "copy", "par", "gpot", "kl", "eq", "ne", "dfv", "isvac",
                               "sample", "show", "poke", "poke", "poke">>
         [] Fam = "weight" -> <<"mul", "mul", "div", "div", "norm", "norm", "marg", "marg", "par", "par", "isvac", "dfv", "eq", "reduce", "copy", "kl">>
         [] Fam = "lin" -> <<"mul", "mul", "mul", "marg", "reduce", "norm", "par", "par", "gpot", "div", "copy">>
         [] Fam = "mix" -> <<"newmix", "newmix", "mul", "mul", "div", "reduce", "marg", "marg", "norm", "mm", "gpot", "gpot", "par", "par", "eq", "eq", "copy",
                             "remix", "sample", "argmax", "isvac", "cancel", "show">>
         [] Fam = "mframe" -> <<"newmix", "mul", "div", "reduce", "marg", "norm", "mm", "gpot", "par", "eq", "copy", "sample", "isvac", "show", "poke", "poke">>
         [] Fam = "plot" -> <<"newmix", "mul", "reduce", "marg", "norm", "plot", "plot", "plot", "plot", "plot">>
         [] Fam = "fac" -> <<"newfac", "newfac", "mul", "mul", "mul", "div", "reduce", "reduce", "marg", "marg", "norm", "joint", "par", "par", "kl", "eq", "copy",
                             "refac", "dfv", "isvac", "cancel">>
         [] Fam = "nlg" -> <<"newnlg", "newnlg", "mul", "mul", "mul", "mul", "div", "reduce", "reduce", "marg", "marg", "joint", "norm", "par", "par", "eq",
                             "ne", "copy", "sigma", "sample", "newmix", "newmix", "newnlm", "newnlm">>
         [] Fam = "nframe" -> <<"newnlg", "mul", "mul", "div", "reduce", "marg", "joint", "norm", "par", "eq", "copy", "sample", "newmix", "newnlm", "show", "poke", "poke">>
         [] OTHER -> <<"newfac", "mul", "mul", "div", "reduce", "marg", "norm", "joint", "par", "kl", "eq", "copy", "dfv", "poke", "poke">>

Handles(p) == SetToSeq(DOMAIN p)
RandNew(ky, h) ==
  LET v == Some(ky, 20, GV, 1, 3)
      form == <<"can", "cov">>[1 + R(ky, 21, 2)]
      prm == <<SEED, ky[2]>>
      fixed == Some(prm, 22, GV, 1, 2)
  IN CASE Fam = "mix" /\ Chance(ky, 33, 1, 6) ->
            [op |-> "newskm", out |-> h, v |-> fixed,
             cs |-> [i \in 1 .. (1 + R(ky, 34, 3)) |-> [M |-> Spd(ky \o <<i>>, Len(fixed)), m |-> [j \in DOMAIN fixed |-> Quarter(ky, 200 + 9 * i + j, 12)],
                                                       w |-> <<"1/2", "1/4", "1/8", "3/8">>[1 + R(ky, 35 + i, 4)]]]]
       [] Mixes -> IF Chance(ky, 29, 1, 8) THEN [NewVac(h, fixed, ky) EXCEPT !.w = "0"]
                ELSE NewGau(h, IF Chance(ky, 23, 5, 6) THEN fixed ELSE v, ky, form)
       [] Nlgs -> LET sp == Shuffle(prm, 25, GV) n == 1 + R(prm, 26, 2) m == 1 + R(prm, 27, 2)
                      vin == SubSeq(sp, 1, n)
                      vout == SubSeq(sp, n + 1, n + m) IN
                  IF Chance(ky, 23, 1, 4) THEN NewNlg(h, IF Chance(ky, 29, 1, 6) THEN Shuffle(ky, 31, vin) ELSE vin, vout, ky)
                  ELSE IF Chance(ky, 29, 1, 10) THEN [NewVac(h, v, ky) EXCEPT !.w = "0"]
                  ELSE NewGau(h, CASE R(ky, 30, 8) \in {0, 1} -> vin [] R(ky, 30, 8) = 2 -> Shuffle(ky, 31, vin) [] R(ky, 30, 8) = 3 -> Some(ky, 32, vin, 1, 2)
                                   [] R(ky, 30, 8) = 4 -> vout [] R(ky, 30, 8) \in {5, 6} -> Some(ky, 33, vout, 1, 2) [] OTHER -> v, ky, form)
       [] Facs -> IF Chance(ky, 23, 1, 8) THEN NewVac(h, v, ky) ELSE NewGau(h, Some(ky, 24, GV, 1, 2), ky, form)
       [] Fam = "lin" /\ Chance(ky, 23, 1, 2) ->
            LET s == Shuffle(ky, 25, GV) n == 1 + R(ky, 26, 3) m == 1 + R(ky, 27, 4 - n) IN
            NewLin(h, SubSeq(s, 1, n), SubSeq(s, n + 1, n + m), ky)
       [] Fam = "weight" /\ Chance(ky, 23, 1, 3) -> NewVac(h, v, ky)
       [] Chance(ky, 28, 1, 10) /\ Len(v) > 1 -> NewSing(h, v, ky)
       [] OTHER -> NewGau(h, v, ky, form)

Quarter0(x) == RDiv(RInt(x), "4")
RandCmd(ky, p, h) ==
  LET hs == Handles(p)
      op == OneOf(ky, 3, Ops)
      want == CASE Mixes /\ op \in {"mm", "argmax", "marg", "div", "norm", "remix"} -> "mix" [] Nlgs /\ op \in {"sigma"} -> "gau" [] Nlgs /\ op \notin {"copy", "poke"} -> (IF Chance(ky, 51, 1, 4) THEN "nlm" ELSE "nlg") [] (Facs \/ Mixes) /\ op = "par" /\ Chance(ky, 51, 1, 2) -> "gau" [] Facs /\ op # "newfac" -> "fac" [] OTHER -> ""
      pref == SelectSeq(hs, LAMBDA x : want = "" \/ p[x].k = want)
      a == OneOf(ky, 1, IF pref = <<>> THEN hs ELSE pref)
      A == p[a]
      gs == SelectSeq(hs, LAMBDA x : p[x].k = "gau")
      ms == SelectSeq(hs, LAMBDA x : p[x].k = "mix")
      ns == SelectSeq(hs, LAMBDA x : p[x].k = "nlg")
      same == SelectSeq(hs, LAMBDA x : SameSet(p[x].v, A.v))
      b == IF op \in {"kl", "eq", "ne"} /\ Chance(ky, 4, 7, 8) THEN OneOf(ky, 5, same)
           ELSE IF Nlgs /\ ms # <<>> /\ Chance(ky, 52, 1, 4) THEN OneOf(ky, 2, ms)
           ELSE IF (Facs \/ Mixes \/ Nlgs) /\ gs # <<>> /\ Chance(ky, 6, 3, 4) THEN OneOf(ky, 2, gs) ELSE OneOf(ky, 2, hs)
      peers == SelectSeq(gs, LAMBDA x : p[x].v = p[gs[1 + R(ky, 9, Len(gs))]].v)
      alias == R(ky, 6, 2)
      vals(vs, lim) == [i \in DOMAIN vs |-> Quarter(ky, 110 + i, lim)]
  IN CASE op = "eq" /\ A.k = "gau" /\ p[b].k = "gau" /\ Chance(ky, 53, 1, 3) -> [op |-> op, a |-> a, b |-> b, out |-> 0, alias |-> 0, tol |-> OneOf(ky, 54, Tols)]
       [] op \in {"mul", "div", "cancel", "eq", "ne"} -> [op |-> op, a |-> a, b |-> b, out |-> IF op \in {"eq", "ne"} THEN 0 ELSE h, alias |-> alias]
       [] op = "kl" -> [op |-> op, a |-> a, b |-> b, out |-> 0]
       [] op = "marg" -> [op |-> op, a |-> a, vars |-> Some(ky, 8, A.v, IF Facs THEN 1 ELSE 0, 4), keep |-> Chance(ky, 7, 2, 3), out |-> h]
       [] op = "reduce" -> LET vs == Some(ky, 8, A.v, 1, IF Chance(ky, 10, 1, 6) THEN 4 ELSE 2) IN
                           [op |-> op, a |-> a, vars |-> vs, alias |-> alias, vals |-> vals(vs, 8), out |-> h]
       [] op = "par" -> [op |-> op, a |-> a, what |-> IF A.k = "mix" THEN "lw" ELSE IF A.k = "fac" THEN OneOf(ky, 11, <<"cov", "mean">>) ELSE OneOf(ky, 11, <<"prec", "h", "g", "cov", "mean", "lw", "w">>), out |-> 0]
       [] op = "gpot" -> LET own == Chance(ky, 12, 1, 3)
                             vs == IF own THEN A.v ELSE Shuffle(ky, 13, A.v) IN
                         [op |-> op, a |-> a, vars |-> IF own THEN <<>> ELSE vs, vals |-> vals(vs, IF Chance(ky, 16, 1, 4) THEN 400 ELSE 8), lg |-> ~ own \/ Chance(ky, 14, 1, 2),
                          shape |-> R(ky, 15, 3), out |-> 0]
       [] op = "plot" -> LET lims(k, i) == IF k = 0 THEN <<>> ELSE LET x == Hash(ky \o <<61, i>>, 17) - 8 IN <<Quarter0(x), Quarter0(x + 1 + Hash(ky \o <<62, i>>, 12))>>
                             k == R(ky, 63, 2) IN
                         [op |-> op, a |-> a, lg |-> Chance(ky, 14, 1, 2), comps |-> Chance(ky, 64, 1, 3), xlim |-> lims(k, 1),
                          ylim |-> lims(IF Len(A.v) < 2 THEN 0 ELSE IF Chance(ky, 65, 1, 6) THEN 1 - k ELSE k, 2), out |-> 0]
       [] op = "sample" -> [op |-> op, a |-> a, n |-> IF A.k = "mix" THEN 300 ELSE 4000, out |-> 0]
       [] op = "reform" -> IF A.k = "gau" /\ A.v # <<>> THEN ReForm(h, A, ky) ELSE RandNew(ky, h)
       [] op = "cform" -> IF A.k = "gau" /\ A.v # <<>> THEN ReForm(h, A, ky) ELSE RandNew(ky, h)
       [] op = "tweak" -> IF A.k = "gau" /\ A.v # <<>> THEN Tweak(h, A, ky) ELSE RandNew(ky, h)
       [] op = "newmix" -> IF gs = <<>> THEN RandNew(ky, h)
                           ELSE LET n == 1 + R(ky, 16, 3)
                                    src == IF Chance(ky, 17, 1, 12) THEN gs ELSE peers IN
                                [op |-> op, hs |-> [i \in 1 .. n |-> OneOf(ky, 30 + i, src)], cm |-> <<0, 1, 2>>[1 + R(ky, 18, 3)], out |-> h]
       [] op = "remix" -> \* the same components in another order (or one of them replaced)
            LET known == SelectSeq([i \in DOMAIN prog |-> prog[i]], LAMBDA c : c.op = "newmix" /\ c.out \in DOMAIN p) IN
            IF known = <<>> \/ gs = <<>> THEN RandNew(ky, h)
            ELSE LET c == OneOf(ky, 19, known) s == Shuffle(ky, 40, c.hs) IN
                 [op |-> "newmix", hs |-> IF Chance(ky, 41, 1, 3) THEN [s EXCEPT ![1] = OneOf(ky, 42, s)] ELSE s, cm |-> c.cm, out |-> h]
       [] op = "newfac" -> IF gs = <<>> THEN RandNew(ky, h)
                           ELSE [op |-> op, hs |-> [i \in 1 .. (1 + R(ky, 16, 3)) |-> OneOf(ky, 30 + i, gs)], out |-> h]
       [] op = "refac" -> \* the same factors in another order
            LET known == SelectSeq([i \in DOMAIN prog |-> prog[i]], LAMBDA c : c.op = "newfac" /\ c.out \in DOMAIN p) IN
            IF known = <<>> THEN RandNew(ky, h)
            ELSE LET c == OneOf(ky, 19, known) IN [op |-> "newfac", hs |-> Shuffle(ky, 40, c.hs), out |-> h]
       [] op = "newnlg" -> RandNew(ky, h)
       [] op = "newnlm" -> IF ns = <<>> THEN RandNew(ky, h)
                           ELSE [op |-> op, hs |-> [i \in 1 .. (1 + R(ky, 16, 2)) |-> OneOf(ky, 30 + i, ns)], split |-> Chance(ky, 17, 1, 3), out |-> h]
       [] op \in {"norm", "copy", "mm", "joint"} -> [op |-> op, a |-> a, out |-> h]
       [] OTHER -> [op |-> op, a |-> a, out |-> 0]

\* ------------------------------------------------------------ the domain
Small(x, lim) == RLe(RAbs(x), lim)
GauOk(A) ==
  /\ Len(A.v) <= 4
  /\ A.g = "?" \/ Small(A.g, "300")
  /\ \A i \in DOMAIN A.v : Small(A.h[i], "400") /\ \A j \in DOMAIN A.v : Small(A.K[i][j], "200")
  /\ ~ GauHazy(A) /\ (GauVacuous(A) => GauFlat(A))
ValueOk(A) == CASE A.k = "gau" -> GauOk(A)
                [] A.k = "mix" -> Len(A.cs) <= 4 /\ \A i \in DOMAIN A.cs : GauOk(A.cs[i])
                [] A.k = "fac" -> A.v # <<>> /\ Len(A.fs) <= 4 /\ GauOk(FacJoint(A)) /\ \A i \in DOMAIN A.fs : GauOk(A.fs[i])
                [] A.k = "nlg" -> NlgOk(A) /\ GauOk(NlgJoint(A))
                [] A.k = "nlm" -> Len(A.ns) <= 4 /\ (\A i \in DOMAIN A.ns : NlgOk(A.ns[i]) /\ GauOk(NlgJoint(A.ns[i])) /\ NlgKnown(A.ns[i]) = NlgKnown(A.ns[1]))
                [] OTHER -> FALSE
\* the operands stay in the domain that is described in DESIGN.md
Legal(c, p) ==
  CASE c.op = "poke" -> TRUE
    [] OTHER -> LET o == Outcome(c, p) IN
                CASE o.o = "any" -> FALSE
                  [] o.o = "val" -> ValueOk(o.v)
                  [] OTHER -> TRUE

Known(A) == CASE A.k = "gau" -> IF A.g = "?" THEN [A EXCEPT !.g = "0"] ELSE A
              [] A.k = "mix" -> [A EXCEPT !.cs = [i \in DOMAIN A.cs |-> IF A.cs[i].g = "?" THEN [A.cs[i] EXCEPT !.g = "0"] ELSE A.cs[i]]]
              [] OTHER -> A
Apply(c, p) ==
  IF c.op = "poke" THEN [x \in DOMAIN p \ {c.a} |-> p[x]]
  ELSE LET o == Outcome(c, p) IN IF o.o = "val" THEN (c.out :> Known(o.v)) @@ p ELSE p

NextCmd ==
  LET h == 1 + Len(prog)
      Try(i) == RandCmd(key \o <<i>>, pool, h)
      good == {i \in 1 .. 5 : Legal(Try(i), pool)}
  IN IF DOMAIN pool = {} \/ Len(prog) < 2 \/ good = {} \/ Chance(key, 50, 1, 8) THEN RandNew(key, h)
     ELSE Try(CHOOSE i \in good : \A j \in good : i <= j)

EnumInit == Fam = "" /\ sid = 0 /\ pool = <<>> /\ key = <<>> /\ prog \in Enumerated(MODE)
EnumNext == Fam = "" /\ sid = 0 /\ sid' = 1 /\ PrintT(ToJson([prog |-> prog])) /\ UNCHANGED <<prog, pool, key>>
RandInit == Fam # "" /\ sid \in 1 .. N /\ prog = <<>> /\ pool = <<>> /\ key = <<SEED, sid, 0>>
RandNext == /\ Fam # "" /\ Len(prog) < D
            /\ LET c == NextCmd IN
               /\ pool' = Apply(c, pool)
               /\ prog' = Append(prog, c)
               /\ Len(prog) + 1 = D => PrintT(ToJson([prog |-> prog']))
            /\ key' = [key EXCEPT ![3] = key[3] + 1]
            /\ UNCHANGED sid

Init == EnumInit \/ RandInit
Next == EnumNext \/ RandNext
Spec == Init /\ [][Next]_vars
=============================================================================
