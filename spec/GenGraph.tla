------------------------------ MODULE GenGraph -------------------------------
(***************************************************************************)
(* Programs for cluster graphs: models (structure, order of factors and of   *)
(* variables, evidence) and schedules.  Structures are enumerated for small   *)
(* scopes and chosen pseudo-randomly for larger ones.                         *)
(***************************************************************************)
EXTENDS GenBase, Table, Json

CONSTANTS SEED, N, D, MODE

VARIABLES sid, done
vars == <<sid, done>>

Big == MODE \in {"big", "bigbuild"}
\* names for drawings: they contain each other and characters with a meaning in patterns and in the drawing language
GV == CASE MODE = "anim1" -> <<"a", "c0#a", "c1#c0#a", "sepset__a", "a--b", "b", "x[1]", "a b">>
        [] MODE = "anim2" -> <<"c1#b", "b", "a.c", "(x)", "y+", "*", "q\"z", "u;v=">>
        [] MODE = "anim3" -> <<"sepset__c0#a__c1#b", "color=red ", "[x fillcolor=white ]", "a__b", "$", "^a|", "\\d", "{3}">>
        [] Big -> <<"b", "a", "x10", "x1", "c", "x2", "d", "bb", "x11", "e", "B", "x3", "f", "g">>
        [] OTHER -> <<"b", "a", "x10", "x1", "c", "x2", "d", "bb">>
GC == IF Big THEN [i \in 1 .. 14 |-> 2] ELSE <<2, 3, 2, 2, 2, 3, 2, 2>>
Card(x) == IF InSeq(x, GV) THEN GC[Pos(GV, x)] ELSE 2
VK(x) == IF InSeq(x, GV) THEN Pos(GV, x) ELSE 0

\* ------------------------------------------------------------ factors
\* A consistent model: the witness assignment has a positive value in every factor.
Witness(ky, x) == Hash(ky \o <<90, VK(x)>>, Card(x))
Strid(v, i) == IProd([j \in 1 .. (Len(v) - i) |-> Card(v[i + j])])
WIndex(ky, v) == 1 + ISum([i \in DOMAIN v |-> Strid(v, i) * Witness(ky, v[i])])
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN "1" ELSE IF n < 0 THEN RDiv("1", Pow2(-n)) ELSE IF n % 2 = 1 THEN RMul("2", Pow2(n - 1)) ELSE LET h == Pow2(n \div 2) IN RMul(h, h)
\* the sum of the states of assignment number m (from 0)
RECURSIVE Digits(_, _)
Digits(v, m) == IF v = <<>> THEN 0 ELSE (m % Card(v[Len(v)])) + Digits(SubSeq(v, 1, Len(v) - 1), m \div Card(v[Len(v)]))
\* kinds of values:  few: only two different ones, so that messages and gains often are equal;  par: depends on the parity of the
\* assignment, so that marginals are uniform;  flat: constant;  far: factors of very different magnitudes;  wide: values of very
\* different magnitudes in one factor
ValueKinds == <<"any", "any", "any", "any", "few", "par", "mix", "far", "wide", "any">>
TabValue(ky, i, v, m, vk0) ==
  LET r == RDiv(RInt(1 + Hash(ky \o <<92, i, m>>, 24)), "8")
      vk == IF vk0 = "mix" THEN OneOf(ky \o <<88, i>>, 1, <<"par", "flat", "few", "any">>) ELSE vk0 IN
  CASE vk = "few" -> IF Hash(ky \o <<92, i, m>>, 2) = 0 THEN "1/2" ELSE "2"
    [] vk = "par" -> IF Digits(v, m - 1) % 2 = 0 THEN "1" ELSE "3"
    [] vk = "flat" -> OneOf(ky \o <<88, i>>, 2, <<"1", "1/4", "3">>)
    [] vk = "far" -> RMul(r, Pow2(OneOf(ky \o <<88, i>>, 3, <<-1600, -700, 0, 900, 1500>>)))
    [] vk = "wide" -> RMul(r, Pow2(OneOf(ky \o <<88, i, m>>, 4, <<-300, -150, 0, 0, 40>>)))
    [] OTHER -> r
\* z: rate of zeros out of 8
TabFactor(ky, i, v, z, sparse, named, vk) ==
  LET n == IProd([j \in DOMAIN v |-> Card(v[j])])
      w == WIndex(ky, v)
      val(m) == IF m # w /\ Hash(ky \o <<91, i, m>>, 8) < z THEN "0" ELSE TabValue(ky, i, v, m, vk)
      t == TLCEval([m \in 1 .. n |-> val(m)])
  IN [op |-> "newtab", out |-> 0, v |-> v, c |-> [j \in DOMAIN v |-> Card(v[j])], sp |-> sparse, df |-> IF sparse THEN "0" ELSE "",
      t |-> t, style |-> IF vk = "far" THEN 1 ELSE Hash(ky \o <<93, i>>, 2),
      nm |-> IF sparse THEN [j \in DOMAIN v |-> <<>>]
             ELSE [j \in DOMAIN v |-> IF named THEN SubSeq(<<"'u'", "'v'", "'w'">>, 1, Card(v[j])) ELSE SubSeq(<<"0", "1", "2">>, 1, Card(v[j]))],
      ex |-> IF sparse THEN SelectSeq([m \in 1 .. n |-> m], LAMBDA m : t[m] # "0" \/ Hash(ky \o <<94, i, m>>, 2) = 0) ELSE <<>>]
Quarter(n) == RDiv(RInt(n), "4")
\* a proper Gaussian: diagonally dominant precision or covariance matrix
GauFactor(ky, i, v, form) ==
  LET n == Len(v)
      off(a, b) == LET p == IF a < b THEN a ELSE b q == IF a < b THEN b ELSE a IN Hash(ky \o <<95, i, p, q>>, 7) - 3
      diag(a) == 4 * n + Hash(ky \o <<96, i, a>>, 9)
  IN [op |-> "newgau", out |-> 0, v |-> v, form |-> form, lists |-> FALSE,
      M |-> TLCEval([a \in 1 .. n |-> [b \in 1 .. n |-> Quarter(IF a = b THEN diag(a) ELSE off(a, b))]]),
      m |-> TLCEval([a \in 1 .. n |-> Quarter(Hash(ky \o <<97, i, a>>, 17) - 8)]), w |-> Quarter(Hash(ky \o <<98, i>>, 9) - 4)]
FactorFor(ky, i, v, fam) ==
  CASE fam.kind = "gau" -> GauFactor(ky, i, v, IF Hash(ky \o <<99, i>>, 3) = 0 THEN "cov" ELSE "can")
    [] OTHER -> TabFactor(ky, i, v, fam.z, fam.kind = "sparse", fam.named, IF "vk" \in DOMAIN fam THEN fam.vk ELSE "any")

\* ----------------------------------------------------------- structures
\* a random junction tree: every cluster shares some variables with an earlier one and brings new ones
RECURSIVE TreeScopes(_, _, _, _)
TreeScopes(ky, n, acc, used) ==
  IF Len(acc) = n \/ (used = Len(GV) /\ acc # <<>>) THEN acc
  ELSE LET k == ky \o <<70, Len(acc)>>
           par == IF acc = <<>> THEN <<>> ELSE acc[1 + Hash(k \o <<1>>, Len(acc))]
           shared == IF acc = <<>> THEN <<>> ELSE Some(k, 2, par, 1, 2)
           left == Len(GV) - used
           new == LET m == 1 + Hash(k \o <<3>>, IF acc = <<>> THEN (IF Big THEN 2 ELSE 3) ELSE IF Big THEN 1 ELSE 2) IN IF m > left THEN left ELSE m
           vs == shared \o [i \in 1 .. new |-> GV[used + i]]
       IN TreeScopes(ky, n, Append(acc, vs), used + new)
\* extra factors: subsets of given scopes
ExtraScopes(ky, scopes, n) == [i \in 1 .. n |-> Some(ky \o <<71, i>>, 1, scopes[1 + Hash(ky \o <<72, i>>, Len(scopes))], 1, 3)]
LooseScopes(ky, n, m) == [i \in 1 .. n |-> Some(ky \o <<73, i>>, 1, SubSeq(GV, 1, m), 1, 3)]
Scopes(ky, st) ==
  LET base == CASE st = "tree" -> TreeScopes(ky, (IF Big THEN 9 ELSE 1) + R(ky, 60, 5), <<>>, 0)
                [] st = "loop" -> LET n == 3 + R(ky, 61, 3) IN
                     [i \in 1 .. n |-> Union(<<GV[1 + (i % n)], GV[1 + ((i + 1) % n)]>>, IF Chance(ky, 62 + i, 1, 4) THEN <<GV[8 - i]>> ELSE <<>>)]
                \* a long cycle or chain with some chords
                [] st = "ring" -> LET n == 8 + R(ky, 61, 6) IN
                     [i \in 1 .. (IF Chance(ky, 66, 1, 2) THEN n ELSE n - 1) |-> <<GV[1 + (i % n)], GV[1 + ((i + 1) % n)]>>]
                     \o [i \in 1 .. R(ky, 75, 3) |-> Some(ky \o <<75, i>>, 1, SubSeq(GV, 1, n), 2, 3)]
                [] OTHER -> LooseScopes(ky, 2 + R(ky, 61, 5), 3 + R(ky, 62, 4))
      all == base \o (IF st = "tree" \/ Chance(ky, 63, 1, 2) THEN ExtraScopes(ky, base, R(ky, 64, 3)) ELSE <<>>)
      ord == Shuffle(ky, 65, all)
  IN TLCEval([i \in DOMAIN ord |-> Shuffle(ky \o <<74, i>>, 1, ord[i])])
AllVars(scopes) == FoldLeft(LAMBDA a, b : Union(a, b), <<>>, scopes)

\* --------------------------------------------------------------- programs
EvVal(ky, x, fam) ==
  CASE fam.kind = "gau" -> RDiv(RInt(Hash(ky \o <<80, VK(x)>>, 17) - 8), "4")
    [] fam.z > 0 -> Witness(ky, x)
    [] OTHER -> Hash(ky \o <<81, VK(x)>>, Card(x))
Evid(ky, vs, fam) == [vars |-> vs, vals |-> [i \in DOMAIN vs |-> EvVal(ky, vs[i], fam)]]
\* style of evidence: 0 none, 1 evidence, 2 special evidence, 3 both
Split(ky, vs, style) ==
  CASE style = 0 -> <<<<>>, <<>>>> [] style = 1 -> <<vs, <<>>>> [] style = 2 -> <<<<>>, vs>>
    [] OTHER -> LET h == Len(vs) \div 2 IN <<SubSeq(vs, 1, h), SubSeq(vs, h + 1, Len(vs))>>
\* now and then a value is given for a variable that no factor has
WithStray(ky, e) == IF Chance(ky, 67, 1, 8) THEN [vars |-> Append(e.vars, "nowhere"), vals |-> Append(e.vals, 1)] ELSE e
Build(ky, ev, sp, fam) ==
  [op |-> "build", ev |-> WithStray(ky, Evid(ky, ev, fam)), sp |-> WithStray(ky \o <<1>>, Evid(ky, sp, fam)), explicit |-> Chance(ky, 69, 1, 4)]
\* sometimes a factor is listed twice: the same object or an equal one
FactorsCmd(ky, scopes, fam) ==
  LET fs == [i \in DOMAIN scopes |-> FactorFor(ky, i, scopes[i], fam)]
      n == Len(fs)
      j == 1 + Hash(ky \o <<68, 1>>, n)
      at == Hash(ky \o <<68, 2>>, n + 1)
      more == CASE Hash(ky \o <<68>>, 6) = 0 -> <<fs[j]>> [] Hash(ky \o <<68>>, 6) = 1 /\ at >= j -> <<[op |-> "same", as |-> j]>> [] OTHER -> <<>>
  IN [op |-> "factors", new |-> SubSeq(fs, 1, at) \o more \o SubSeq(fs, at + 1, n)]

\* queries about parts of the given scopes
Query(ky, scopes, obs) ==
  LET free == Without(scopes[1 + R(ky, 1, Len(scopes))], obs) IN [op |-> "marg", vars |-> Some(ky, 2, free, 1, 3)]
Queries(ky, scopes, obs) ==
  SelectSeq([i \in DOMAIN scopes |-> [op |-> "marg", vars |-> Shuffle(ky \o <<82, i>>, 3, Without(scopes[i], obs))]], LAMBDA c : c.vars # <<>>)
  \o SelectSeq([i \in 1 .. 3 |-> Query(ky \o <<83, i>>, scopes, obs)], LAMBDA c : c.vars # <<>>)
Converge == [op |-> "process", tol |-> "1/10000000000000", iter |-> 30, loopyiter |-> 2]
\* dflt: without arguments (which means the tolerance 1/1000 and 50 iterations)
SomeProcess(ky) ==
  IF Chance(ky, 3, 1, 8) THEN [op |-> "process", tol |-> "1/1000", iter |-> 50, dflt |-> TRUE, loopyiter |-> 2]
  ELSE [op |-> "process", tol |-> OneOf(ky, 1, <<"1/1000", "1/100", "1/10", "1/100000", "1/2", "0", "2">>), iter |-> OneOf(ky, 2, <<1, 2, 3, 5, 1, 0>>)]
\* one random step; mx: highest number of the step kinds that may be used
RandStep(ky, scopes, obs, ops) ==
  LET o == OneOf(ky, 5, ops) IN
  CASE o = "pass" -> [op |-> "pass", k |-> R(ky, 6, 60)]
    [] o = "msg" -> [op |-> "msg", k |-> R(ky, 6, 60)]
    [] o = "process" -> SomeProcess(ky)
    [] o = "marg" -> Query(ky, scopes, obs)
    [] o = "stray" -> [op |-> "marg", vars |-> Some(ky, 2, Without(Append(AllVars(scopes), "nowhere"), obs), 1, 3)]
    [] o = "joint" -> [op |-> "joint"]
    [] o = "pokeinputs" -> [op |-> "poke", what |-> "inputs"]
    [] OTHER -> [op |-> "poke", what |-> "results"]
RandSteps(ky, scopes, obs, ops, n) ==
  SelectSeq([i \in 1 .. n |-> RandStep(ky \o <<84, i>>, scopes, obs, ops)], LAMBDA c : c.op # "marg" \/ c.vars # <<>>)

Fam(ky, kinds) ==
  [kind |-> OneOf(ky, 50, kinds), z |-> OneOf(ky, 51, <<0, 0, 3>>), named |-> Chance(ky, 52, 1, 3), vk |-> OneOf(ky, 49, ValueKinds)]

\* tree: exact posteriors;  any: arbitrary structure, short schedules;  loop: cyclic graphs;
\* evid: the same tree with all splits of the evidence;  zeros: many zeros;  inputs: interference
\* build: only constructions
Program(ky, m) ==
  LET kinds == CASE m \in {"zeros", "zerotree"} -> <<"dense", "sparse">> [] m = "gtree" -> <<"gau">> [] m = "big" -> <<"gau", "gau", "gau", "dense">> [] m = "bigbuild" -> <<"gau">>
                 [] OTHER -> <<"dense", "dense", "sparse", "gau">>
      fam0 == Fam(ky, kinds)
      \* (convergence says nothing about values of negligible probability)
      fam1 == IF fam0.vk = "wide" /\ m \in {"tree", "evid", "inputs", "zerotree", "big"} THEN [fam0 EXCEPT !.vk = "far"] ELSE fam0
      fam == IF m \in {"zeros", "zerotree"} THEN [fam1 EXCEPT !.z = 4] ELSE fam1
      st == CASE m = "bigbuild" -> OneOf(ky, 53, <<"ring", "ring", "tree">>)
              [] m \in {"tree", "evid", "gtree", "zerotree", "big"} -> "tree" [] m = "loop" -> "loop"
              [] OTHER -> OneOf(ky, 53, <<"tree", "any", "any", "loop">>)
      scopes == Scopes(ky, st)
      av == AllVars(scopes)
      evs == IF Chance(ky, 54, 1, 3) /\ m # "evid" THEN <<>> ELSE Some(ky, 55, av, IF m = "evid" THEN 1 ELSE 0, IF m = "build" THEN 6 ELSE 3)
      style == R(ky, 57, 4)
      sp == Split(ky, evs, style)
      obs == evs
      F == FactorsCmd(ky, scopes, fam)
      B == Build(ky, sp[1], sp[2], fam)
      B2(i) == LET p == Split(ky, evs, i) IN Build(ky, p[1], p[2], fam)
  IN CASE m \in {"tree", "gtree", "zerotree", "big"} ->
            <<F, B>> \o RandSteps(ky, scopes, obs, <<"pass", "marg", "process", "joint">>, R(ky, 58, 4))
            \o <<Converge>> \o Queries(ky, scopes, obs) \o <<[op |-> "joint"]>>
       [] m = "evid" ->
            <<F>> \o FlattenSeq([i \in 1 .. 3 |-> <<B2(i), Converge>> \o Queries(ky, scopes, obs)])
       [] m = "bigbuild" -> <<F, B, B2(1 + R(ky, 59, 3))>>
       [] m = "build" -> <<F, B, B2(1), B2(2), B2(0)>>
       [] m = "schedule" ->
            <<F, B>> \o RandSteps(ky, scopes, obs, <<"pass", "pass", "pass", "msg", "joint", "pass">>, D) \o <<[op |-> "joint"]>>
       [] m = "process" ->
            <<F, B>> \o RandSteps(ky, scopes, obs, <<"process", "process", "pass">>, 4) \o <<[op |-> "joint"]>>
       [] m = "loop" ->
            <<F, B>> \o RandSteps(ky, scopes, obs, <<"process", "pass", "pass", "msg", "marg", "joint">>, D)
       [] m = "zeros" ->
            <<F, B>> \o RandSteps(ky, scopes, obs, <<"process", "pass", "pass", "pass", "marg", "msg">>, D)
       [] OTHER -> \* inputs
            <<F, B>> \o RandSteps(ky, scopes, obs, <<"marg", "marg", "joint", "msg", "pass", "process", "pokeresults", "pokeresults", "stray">>, D)
            \o <<B2(R(ky, 59, 4))>> \o RandSteps(ky \o <<1>>, scopes, obs, <<"marg", "pass", "process", "joint", "pokeresults">>, 4)
            \o <<[op |-> "poke", what |-> "inputs"]>>
            \o RandSteps(ky \o <<2>>, scopes, obs, <<"marg", "pass", "process", "joint">>, 4)
            \o <<Converge>>

\* ------------------------------------------------- linear Gaussian models
\* states (of one or two variables) in a tree, mostly a chain; noisy linear transitions and observations
StateName(x, i, dim, j) == x \o ToString(i) \o (IF dim = 1 THEN "" ELSE SubSeq(<<"u", "v">>, 1, 2)[j])
StateVars(ky, x, i, dim) == Shuffle(ky \o <<40, i>>, 1, [j \in 1 .. dim |-> StateName(x, i, dim, j)])
Linears(dim) == IF dim = 1 THEN << <<<<"1">>>>, <<<<"1/2">>>>, <<<<"2">>>>, <<<<"-1">>>>, <<<<"3/4">>>> >>
                ELSE << <<<<"1", "1">>, <<"0", "1">>>>, <<<<"1", "0">>, <<"0", "1">>>>, <<<<"3/4", "-1/2">>, <<"1/2", "3/4">>>>,
                        <<<<"0", "1">>, <<"1", "0">>>>, <<<<"1", "0">>, <<"1/4", "-2">>>> >>
Noise(ky, dim) == LET a == OneOf(ky, 1, <<"1/4", "1/2", "1", "3/4", "2">>) IN
  IF dim = 1 THEN << <<a>> >> ELSE LET o == OneOf(ky, 3, <<"0", "1/8", "-1/8">>) IN << <<a, o>>, <<o, OneOf(ky, 2, <<"1/2", "1", "3/2">>)>> >>
LinFactor(ky, vin, vout) ==
  [op |-> "newlin", out |-> 0, vin |-> vin, vout |-> vout, N |-> Noise(ky \o <<2>>, Len(vout)),
   A |-> IF Len(vin) = Len(vout) THEN OneOf(ky, 1, Linears(Len(vin))) ELSE << OneOf(ky, 1, << <<"1", "0">>, <<"0", "1">>, <<"1/2", "-1">> >>) >>]
\* the same density as a nonlinear Gaussian
Nonlinear(ky, f) == [op |-> "newnlg", out |-> 0, vin |-> f.vin, vout |-> f.vout, N |-> f.N, A |-> f.A, byname |-> FALSE, w |-> "0",
                     m |-> [i \in DOMAIN f.vout |-> Quarter(Hash(ky \o <<i>>, 9) - 4)]]
Kalman(ky) ==
  LET dim == 1 + R(ky, 30, 2)
      T == 2 + R(ky, 31, IF dim = 1 THEN 4 ELSE 2)
      par(i) == IF Chance(ky, 32, 2, 3) THEN i - 1 ELSE Hash(ky \o <<33, i>>, i)
      X(i, k) == StateVars(ky \o <<k>>, "x", i, dim)
      Z(i) == IF dim = 2 /\ MODE = "kalman" /\ Hash(ky \o <<44, i>>, 2) = 0 THEN <<"z" \o ToString(i)>> ELSE StateVars(ky, "z", i, dim)
      seen == SelectSeq([i \in 1 .. T |-> i], LAMBDA i : Hash(ky \o <<34, i>>, 4) > 0)
      prior == GauFactor(ky, 0, X(0, 0), OneOf(ky, 35, <<"cov", "can">>))
      fs == <<prior>> \o [i \in 1 .. T |-> LinFactor(ky \o <<36, i>>, X(par(i), i), X(i, i))]
            \o [i \in DOMAIN seen |-> LinFactor(ky \o <<37, i>>, X(seen[i], 50 + i), Z(seen[i]))]
      zs == FlattenSeq([i \in DOMAIN seen |-> Z(seen[i])])
      \* (nonlinear Gaussians need conditioning distributions that are either proper or vacuous)
      obs == SelectSeq(zs, LAMBDA z : Hash(ky \o <<38, IF MODE = "kalman" THEN Pos(zs, z) ELSE (Pos(zs, z) - 1) \div dim>>, 8) > 0)
      ev(vs) == [vars |-> vs, vals |-> [i \in DOMAIN vs |-> Quarter(Hash(ky \o <<39, Pos(zs, vs[i])>>, 17) - 8)]]
      B(st) == LET p == Split(ky, obs, st) IN [op |-> "build", ev |-> ev(p[1]), sp |-> ev(p[2]), explicit |-> Chance(ky, 69, 1, 4)]
      some == Chance(ky, 45, 1, 2)
      hard(i) == MODE = "nlkalman" /\ i > 1 /\ (~ some \/ Hash(ky \o <<46, i>>, 2) = 0)
      F == [op |-> "factors", new |-> Shuffle(ky, 65, [i \in DOMAIN fs |-> IF hard(i) THEN Nonlinear(ky \o <<47, i>>, fs[i]) ELSE fs[i]])]
      scopes == [i \in 1 .. (T + 1) |-> X(i - 1, 7)] \o [i \in 1 .. T |-> X(par(i), 8) \o X(i, 8)] \o SelectSeq([i \in DOMAIN seen |-> Z(seen[i])], LAMBDA z : \A v \in Range(z) : ~ InSeq(v, obs))
  IN <<F, B(R(ky, 41, 4))>> \o RandSteps(ky, scopes, obs, <<"pass", "pass", "process", "marg">>, R(ky, 42, 4)) \o <<Converge>> \o Queries(ky, scopes, obs)
     \o <<B(R(ky, 43, 4)), Converge>> \o Queries(ky, scopes, obs)

\* ------------------------------------------------------------- drawings
IsAnim == MODE \in {"anim1", "anim2", "anim3"}
DrawBuild(ky, ev, sp, fam) == Build(ky, ev, sp, fam) @@ [draw |-> TRUE]
DrawProcess(ky) == SomeProcess(ky) @@ [anim |-> Chance(ky, 9, 3, 4)]
AnimProgram(ky) ==
  LET fam == Fam(ky, <<"dense", "gau">>)
      st == OneOf(ky, 53, <<"tree", "loop", "tree">>)
      scopes == Scopes(ky, st)
      evs == Some(ky, 55, AllVars(scopes), 0, 2)
      sp == Split(ky, evs, R(ky, 57, 4))
  IN <<FactorsCmd(ky, scopes, fam), DrawBuild(ky, sp[1], sp[2], fam), DrawProcess(ky), [op |-> "pass", k |-> R(ky, 6, 60)],
       [op |-> "gif"], DrawProcess(ky \o <<1>>), [op |-> "gif"]>>
\* a chain whose last variables have the names of clusters, separation sets or parts of them
\* plots of the gains and distances after arbitrary histories
IsPlot == MODE \in {"plots", "plots2"}
PlotStep(ky) == IF Chance(ky, 11, 1, 2) THEN [op |-> "plotgain", legend |-> Chance(ky, 12, 2, 3)] ELSE [op |-> "plotconv", log |-> Chance(ky, 13, 1, 2)]
PlotProgram(ky) ==
  LET fam0 == Fam(ky, <<"dense", "dense", "gau", "sparse">>)
      fam == IF fam0.vk = "wide" THEN [fam0 EXCEPT !.vk = "far"] ELSE fam0
      long == Chance(ky, 59, 1, 6) \* many messages along every path
      scopes == Scopes(ky, IF long THEN "loop" ELSE OneOf(ky, 53, <<"tree", "any", "loop", "any">>))
      evs == Some(ky, 55, AllVars(scopes), 0, IF long THEN 0 ELSE 2)
      sp == Split(ky, evs, R(ky, 57, 4))
      part(i) == RandSteps(ky \o <<i>>, scopes, evs, <<"pass", "pass", "process", "process">>, 1 + R(ky, 60 + i, 3)) \o <<PlotStep(ky \o <<i, 1>>), PlotStep(ky \o <<i, 2>>)>>
  IN <<FactorsCmd(ky, scopes, fam), DrawBuild(ky, sp[1], sp[2], fam), PlotStep(ky)>> \o part(1) \o (IF long THEN << >> ELSE part(2))
     \o (IF long THEN <<[op |-> "process", tol |-> "-1", iter |-> 6 + R(ky, 58, 10)], PlotStep(ky \o <<4, 1>>), PlotStep(ky \o <<4, 2>>)>> ELSE part(3))
\* the image of one small graph is saved
SaveProgram ==
  LET fam == [kind |-> "dense", z |-> 0, named |-> FALSE]
      ky == <<0>>
  IN <<FactorsCmd(ky, << <<"a", "b">>, <<"b", "c">> >>, fam), [op |-> "build", draw |-> TRUE, ev |-> [vars |-> <<>>, vals |-> <<>>], sp |-> [vars |-> <<>>, vals |-> <<>>], explicit |-> FALSE],
       [op |-> "save"]>>
Odd == {"x", "c0#a,b", "c1#b,x", "sepset__c0#a,b__c1#b,x", "c2#", "a", "0#a,b"}
AnimChain(r, t, o) ==
  LET fam == [kind |-> "dense", z |-> 0, named |-> FALSE]
      fl(i, v) == IF o[i] THEN v ELSE Reverse(v)
      ss == <<fl(1, <<"a", "b">>), fl(2, <<"b", r>>), fl(3, <<r, t>>)>>
  IN <<FactorsCmd(<<SEED>>, ss, fam), DrawBuild(<<SEED>>, <<>>, <<>>, fam), [op |-> "process", tol |-> "0", iter |-> 1, anim |-> TRUE], [op |-> "gif"]>>
AnimChains == {AnimChain(r, t, o) : r \in Odd \ {"a"}, t \in Odd \cup {"d"}, o \in [1 .. 3 -> BOOLEAN]}

\* ------------------------------------------------------------ enumeration
EV3 == <<"b", "a", "c">>
Sub3 == {<<"b">>, <<"a">>, <<"c">>, <<"a", "b">>, <<"c", "b">>, <<"a", "c">>, <<"c", "a", "b">>}
EnumProgram(ss, e, kind) ==
  LET ky == <<SEED, Len(ss)>> \o FlattenSeq([i \in DOMAIN ss |-> [j \in DOMAIN ss[i] |-> VK(ss[i][j])]])
      fam == [kind |-> kind, z |-> 0, named |-> FALSE]
      evs == [i \in DOMAIN e |-> e[i]]
  IN <<FactorsCmd(ky, ss, fam), Build(ky, evs, <<>>, fam), Build(ky, <<>>, evs, fam)>>
     \o (IF Len(evs) > 1 THEN <<Build(ky, <<evs[1]>>, Tail(evs), fam)>> ELSE <<>>)
EvidSets == {SelectSeq(EV3, LAMBDA x : x \in S) : S \in SUBSET Range(EV3)}
Enumerated ==
  CASE MODE = "enum-build" -> {EnumProgram(ss, e, "dense") : ss \in UNION {[1 .. n -> Sub3] : n \in 1 .. 3}, e \in EvidSets}
    [] MODE = "enum-build-gau" -> {EnumProgram(ss, e, "gau") : ss \in UNION {[1 .. n -> Sub3] : n \in 1 .. 2}, e \in EvidSets}
    [] MODE = "enum-build4" -> {EnumProgram(ss, <<>>, "dense") : ss \in [1 .. 4 -> Sub3]}
    [] MODE = "enum-save" -> {SaveProgram}
    [] MODE = "enum-anim" -> {p \in AnimChains : \A i \in DOMAIN p[1].new : p[1].new[i].v[1] # p[1].new[i].v[2]}
    [] OTHER -> {}
IsEnum == MODE \in {"enum-save", "enum-anim", "enum-build", "enum-build-gau", "enum-build4"}

Init == sid = 0 /\ done = <<>>
Next == /\ done = <<>> /\ sid = 0
        /\ IF IsEnum
           THEN \E p \in Enumerated : done' = p /\ PrintT(ToJson([prog |-> p])) /\ UNCHANGED sid
           ELSE \E i \in 1 .. N : sid' = i /\ PrintT(ToJson([prog |-> IF IsAnim THEN AnimProgram(<<SEED, i>>) ELSE IF IsPlot THEN PlotProgram(<<SEED, i>>) ELSE IF MODE \in {"kalman", "nlkalman"} THEN Kalman(<<SEED, i>>) ELSE Program(<<SEED, i>>, MODE)])) /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
=============================================================================
