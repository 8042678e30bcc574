------------------------------- MODULE GenTab --------------------------------
(***************************************************************************)
(* Behaviours of FactorPool for discrete factors: enumerated programs (one  *)
(* transition from every structure of operands) and pseudo-random programs  *)
(* that execute the specification (so that they stay inside of its domain). *)
(***************************************************************************)
EXTENDS FactorPool, GenBase, Json

CONSTANTS SEED, N, D, MODE

VARIABLES sid, prog, pool, key
vars == <<sid, prog, pool, key>>

TV == <<"b", "a", "x10", "x2">>
\* cardinalities (in random programs also larger ones)
Wide == MODE \in {"rand-dense", "rand-sparse", "rand-names", "rand-equal", "rand-kl", "rand-eval", "rand-cancel"}
TC == IF Wide THEN << <<2, 3, 2, 1>>, <<2, 3, 2, 1>>, <<2, 3, 2, 1>>, <<4, 2, 3, 2>>, <<2, 1, 12, 3>>, <<5, 5, 1, 2>> >>[1 + Hash(<<SEED, sid, 78>>, 6)]
      ELSE <<2, 3, 2, 1>>
Card(x) == TC[Pos(TV, x)]
DefaultNames(x) == [i \in 1 .. Card(x) |-> ToString(i - 1)]
More == <<"'k'", "'j'", "10", "9", "'10'", "'m'", "-1", "'n'", "'i'", "'p'", "'q'">>
CustomNames3(x) == CASE x = "b" -> <<"'no'", "'yes'">> [] x = "a" -> <<"'red'", "'blue'", "'b'">>
                    [] x = "x10" -> <<"1", "0">> [] OTHER -> <<"'only'">>
OtherNames3(x) == CASE x = "b" -> <<"'yes'", "'no'">> [] x = "a" -> <<"'red'", "'blue'", "'green'">>
                    [] x = "x10" -> <<"0", "'1'">> [] OTHER -> <<"'single'">>

CustomNames(x) == LET s == CustomNames3(x) \o More IN SubSeq(s, 1, Card(x))
OtherNames(x) == LET s == OtherNames3(x) \o More IN SubSeq(s, 1, Card(x))
\* values: eighths, with zeros at a rate of z / 8; in random programs also values that often are equal (few) or almost equal (close), factors of very
\* different magnitudes (far), and values of very different magnitudes in one factor (wide)
IsRandom == MODE \in {"rand-dense", "rand-sparse", "rand-names", "rand-frame", "rand-equal", "rand-kl", "rand-algebra", "rand-cancel", "rand-eval"}
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN "1" ELSE IF n < 0 THEN RDiv("1", Pow2(-n)) ELSE IF n % 2 = 1 THEN RMul("2", Pow2(n - 1)) ELSE LET h == Pow2(n \div 2) IN RMul(h, h)
ValueKind(ky) == IF IsRandom THEN <<"any", "any", "close", "far", "few", "far", "wide", "any">>[1 + Hash(<<SEED, ky[2], 77>>, 8)] ELSE "any"
Value(ky, i, z) ==
  LET r == RDiv(RInt(1 + Hash(ky \o <<8, i>>, 40)), "8")
      vk == ValueKind(ky)
  IN IF Hash(ky \o <<7, i>>, 8) < z THEN "0"
     ELSE CASE vk = "few" -> IF Hash(ky \o <<8, i>>, 2) = 0 THEN "1/2" ELSE "2"
            [] vk = "close" -> RDiv(RInt(100000 + Hash(ky \o <<8, i>>, 5) * (IF Hash(ky, 2) = 0 THEN 1 ELSE 40)), "300000")
            [] vk = "far" -> RMul(r, Pow2(<<-1600, -300, -1500, 0, 500, 900>>[1 + Hash(ky \o <<6>>, 6)]))
            [] vk = "wide" -> RMul(r, Pow2(<<-300, -100, 0, 0, 50, -1500>>[1 + Hash(ky \o <<6, i>>, 6)]))
            [] OTHER -> r
\* can the values be numbers of the implementation (and not only their logarithms)?
Moderate(T) == IsRandom => \A i \in DOMAIN T.t : Undef(T.t[i]) \/ T.t[i] = "0" \/ (RLe(Pow2(-1000), T.t[i]) /\ RLe(T.t[i], Pow2(1000)))
\* naming: which names a factor uses: 0 default, 1 custom, 2 deviating for one variable
Naming(v, mode, dev) == [i \in DOMAIN v |-> CASE mode = 0 -> DefaultNames(v[i])
                                               [] mode = 2 /\ v[i] = dev -> OtherNames(v[i])
                                               [] OTHER -> CustomNames(v[i])]
Size(v) == IProd([i \in DOMAIN v |-> Card(v[i])])
\* style: how the constructor is called (the function is the same): with probabilities, or with their logarithms
Style(ky) == IF ValueKind(ky) \in {"far", "wide"} THEN 1 ELSE Hash(ky \o <<9>>, 2)
NewDense(h, v, ky, z, mode, dev) ==
  [op |-> "newtab", out |-> h, v |-> v, c |-> [i \in DOMAIN v |-> Card(v[i])], sp |-> FALSE, df |-> "",
   t |-> TLCEval([i \in 1 .. Size(v) |-> Value(ky, i, z)]), nm |-> Naming(v, mode, dev), ex |-> <<>>,
   style |-> Style(ky)]
\* expl: out of 8, how many assignments are stored explicitly
NewSparse(h, v, ky, z, df, expl) ==
  LET n == Size(v)
      isx == TLCEval([i \in 1 .. n |-> Hash(ky \o <<10, i>>, 8) < expl])
      ex == Shuffle(ky, 11, SelectSeq([i \in 1 .. n |-> i], LAMBDA i : isx[i]))
  IN [op |-> "newtab", out |-> h, v |-> v, c |-> [i \in DOMAIN v |-> Card(v[i])], sp |-> TRUE, df |-> df,
      t |-> TLCEval([i \in 1 .. n |-> IF isx[i] THEN Value(ky, i, z) ELSE df]),
      nm |-> [i \in DOMAIN v |-> <<>>], ex |-> ex, style |-> Style(ky)]

\* ------------------------------------------------------------ enumeration
Key(S) == <<SEED>> \o S
Scopes(S) == SetToSeq(OrderedSubsets(S))
V3 == {"b", "a", "x10"}
V3x == {"x2", "a", "b"}
V4 == Range(TV)
Ks(p) == <<Pos(SetToSeq(V4), p)>>
ScopeKey(v) == [i \in DOMAIN v |-> Pos(TV, v[i])]

BinProg(a, b, z, sp) ==
  LET ka == Key(<<1, 0>> \o ScopeKey(a) \o <<0>> \o ScopeKey(b))
      kb == Key(<<2, 0>> \o ScopeKey(a) \o <<0>> \o ScopeKey(b))
      dfi == Hash(ka, 3)
      df == <<"0", "1", "3/8">>[dfi + 1]
  IN <<IF sp THEN NewSparse(1, a, ka, z, df, 4) ELSE NewDense(1, a, ka, z, 1, ""),
       IF sp THEN NewSparse(2, b, kb, z, df, 4) ELSE NewDense(2, b, kb, z, 1, ""),
       [op |-> "mul", a |-> 1, b |-> 2, out |-> 3],
       [op |-> "div", a |-> 1, b |-> 2, out |-> 4],
       [op |-> "cancel", a |-> 1, b |-> 2, out |-> 5],
       [op |-> "cancel", a |-> 3, b |-> 2, out |-> 6]>>
BinPrograms(S, z, sp) == {BinProg(a, b, z, sp) : a \in OrderedSubsets(S), b \in OrderedSubsets(S)}

UnaryNew(v, z, sp) ==
  LET ky == Key(<<3>> \o ScopeKey(v)) IN
  IF sp THEN NewSparse(1, v, ky, z, <<"0", "1/2">>[1 + Hash(ky, 2)], 4) ELSE NewDense(1, v, ky, z, 1, "")
MargProg(v, z, sp) ==
  LET ks == SetToSeq(OrderedSubsets(Range(v))) IN
  <<UnaryNew(v, z, sp)>>
  \o [i \in DOMAIN ks |-> [op |-> "marg", a |-> 1, vars |-> ks[i], keep |-> TRUE, out |-> 1 + i]]
  \o [i \in DOMAIN ks |-> [op |-> "marg", a |-> 1, vars |-> ks[i], keep |-> FALSE, out |-> 1 + Len(ks) + i]]
ReduceProg(v, z, sp) ==
  LET ks == SetToSeq({<<s, x>> : s \in OrderedSubsets(Range(v)), x \in 0 .. 2})
      val(s, x) == [i \in DOMAIN s |-> Hash(ScopeKey(s) \o <<i, x>>, Card(s[i]))]
  IN <<UnaryNew(v, z, sp)>>
     \o [i \in DOMAIN ks |-> [op |-> "reduce", a |-> 1, vars |-> ks[i][1], vals |-> val(ks[i][1], ks[i][2]), out |-> 1 + i]]
ReorderProg(v, z, sp) ==
  LET ks == SetToSeq(Orders(Range(v))) IN
  <<UnaryNew(v, z, sp)>>
  \o [i \in DOMAIN ks |-> [op |-> "reorder", a |-> 1, vars |-> ks[i], out |-> 1 + i]]
  \o <<[op |-> "norm", a |-> 1, out |-> 90], [op |-> "copy", a |-> 1, out |-> 91]>>
  \o IF sp THEN <<[op |-> "weight", a |-> 1, out |-> 0], [op |-> "weight", a |-> 90, out |-> 0]>> ELSE <<>>
UnaryPrograms(S, z, sp) ==
  UNION {{MargProg(v, z, sp), ReduceProg(v, z, sp), ReorderProg(v, z, sp)} : v \in OrderedSubsets(S)}

\* every assignment in every variable order, mode and listings
EvalProg(v, z, sp, orders) ==
  LET n == Size(v)
      ky == Key(<<4>> \o ScopeKey(v))
      os == SetToSeq(Orders(Range(v)))
      ow == IF orders < Len(os) THEN SubSeq(Shuffle(ky, 1, os), 1, orders) ELSE os
      asg(o, i) == TLCEval([j \in DOMAIN o |-> (i \div IProd([m \in 1 .. (Len(o) - j) |-> Card(o[j + m])])) % Card(o[j])])
      pots == FlattenSeq([k \in DOMAIN ow |-> [i \in 1 .. n |-> [op |-> "pot", a |-> 1, vars |-> ow[k], vals |-> asg(ow[k], i - 1), out |-> 0]]])
  IN <<UnaryNew(v, z, sp)>> \o pots
     \o <<[op |-> "argmax", a |-> 1, out |-> 0], [op |-> "show", a |-> 1, out |-> 0], [op |-> "list", a |-> 1, named |-> FALSE, df |-> FALSE, out |-> 0]>>
     \o (IF sp THEN <<>>
         ELSE <<[op |-> "argmaxn", a |-> 1, out |-> 0],
                [op |-> "list", a |-> 1, named |-> FALSE, df |-> TRUE, out |-> 0],
                [op |-> "list", a |-> 1, named |-> TRUE, df |-> TRUE, out |-> 0]>>)
EvalPrograms(S, z, sp) == {EvalProg(v, z, sp, 3) : v \in {w \in OrderedSubsets(S) : w # <<>>}}

\* bars of tables, before and after some operations
PlotProg(v, z, mode) ==
  LET ky == Key(<<12, mode>> \o ScopeKey(v))
      plot(a) == [op |-> "plot", a |-> a, lg |-> Hash(ky \o <<a>>, 2) = 0, comps |-> FALSE, xlim |-> <<>>, ylim |-> <<>>, out |-> 0]
  IN <<NewDense(1, v, ky, z, mode, ""), plot(1), [op |-> "reorder", a |-> 1, vars |-> Shuffle(ky, 2, v), out |-> 2], plot(2),
       [op |-> "marg", a |-> 2, vars |-> Some(ky, 3, v, 1, 2), keep |-> TRUE, out |-> 3], plot(3),
       NewDense(4, <<"a">>, ky \o <<4>>, 0, mode, ""), [op |-> "mul", a |-> 3, b |-> 4, out |-> 5], plot(5), [op |-> "norm", a |-> 5, out |-> 6], plot(6)>>
PlotPrograms(S) == {PlotProg(v, z, mode) : v \in {w \in OrderedSubsets(S) : w # <<>> /\ Len(w) <= 3}, z \in {0, 2}, mode \in {0, 1}}

Tols == << <<"1/1000000000", "1/1000000000">>, <<"0", "1/100">>, <<"1/20", "0">>, <<"1/100000", "1/100000">>, <<"0", "1/1000000000">> >>
\* a factor against one that differs in one value, by little or by much, in the same or another order of the variables
EqualProg(v, sp, i, eps) ==
  LET c == UnaryNew(v, 0, sp)
      A == Outcome(c, <<>>).v
      last == IF i = 0 THEN 1 ELSE Len(A.t)
      d == [c EXCEPT !.out = 3, !.t = [c.t EXCEPT ![last] = RMul(c.t[last], eps)],
                       !.ex = IF sp /\ ~ InSeq(last, c.ex) THEN Append(c.ex, last) ELSE c.ex]
      o == Shuffle(Key(<<9, i>> \o ScopeKey(v)), 1, v)
      eqs(x, y) == <<[op |-> "eq", a |-> x, b |-> y, alias |-> 0, out |-> 0], [op |-> "ne", a |-> y, b |-> x, alias |-> 1, out |-> 0]>>
                   \o [j \in 1 .. (2 * Len(Tols)) |-> [op |-> "eq", a |-> IF j % 2 = 0 THEN x ELSE y, b |-> IF j % 2 = 0 THEN y ELSE x,
                                                     alias |-> 0, out |-> 0, tol |-> Tols[(j + 1) \div 2]]]
  IN <<c, d, [op |-> "reorder", a |-> 3, vars |-> o, out |-> 4], [op |-> "copy", a |-> 1, out |-> 2]>>
     \o eqs(1, 3) \o eqs(1, 4) \o <<[op |-> "eq", a |-> 1, b |-> 2, alias |-> 1, out |-> 0]>>
EqualPrograms(S) == {EqualProg(v, sp, i, eps) : v \in {w \in OrderedSubsets(S) : Len(w) \in {1, 2}}, sp \in BOOLEAN, i \in {0, 1},
                                              eps \in {"1", "1000000000001/1000000000000", "10000001/10000000", "1001/1000", "20/19", "3/2"}}

\* factors of the same variables with other numbers of values
OfCards(h, v, c, sp, some) ==
  LET n == IProd(c) IN
  [op |-> "newtab", out |-> h, v |-> v, c |-> c, sp |-> sp, df |-> IF sp THEN "0" ELSE "", nm |-> [i \in DOMAIN v |-> IF sp THEN <<>> ELSE [j \in 1 .. c[i] |-> ToString(j - 1)]],
   t |-> [i \in 1 .. n |-> IF some /\ i > 1 THEN "0" ELSE IF some THEN "1" ELSE RInt(i)], ex |-> IF some THEN <<1>> ELSE [i \in 1 .. n |-> i], style |-> 0]
CardsProg(v, w, c, d, sp, some) ==
  LET q(op, x, y) == [op |-> op, a |-> x, b |-> y, alias |-> 0, out |-> 0] IN
  <<OfCards(1, v, c, sp, some), OfCards(2, w, d, sp, some), q("eq", 1, 2), q("eq", 2, 1), q("ne", 1, 2), q("eq", 1, 1)>>
CardsPrograms == {CardsProg(<<"a", "b">>, w, c, d, sp, some) : w \in Orders({"a", "b"}), c \in {<<2, 3>>, <<2, 2>>}, d \in {<<2, 3>>, <<3, 2>>, <<2, 2>>, <<3, 3>>, <<1, 6>>},
                                                            sp \in BOOLEAN, some \in BOOLEAN}
                 \cup {CardsProg(<<"a">>, <<"a">>, c, d, sp, some) : c \in {<<1>>, <<2>>}, d \in {<<1>>, <<2>>, <<3>>}, sp \in BOOLEAN, some \in BOOLEAN}

\* divergences of factors of the same variables, in every order of the second one, and of scaled, uniform and nearly uniform factors
KLProg(v, c, sp, z) ==
  LET ky == Key(<<13, z, IProd(c)>> \o [i \in DOMAIN v |-> Pos(TV, v[i])])
      n == IProd(c)
      new(h, t) == [OfCards(h, v, c, sp, FALSE) EXCEPT !.t = t,
                      !.ex = IF sp THEN SelectSeq([i \in 1 .. n |-> i], LAMBDA i : t[i] # "0" \/ Chance(ky, 60 + i, 1, 2)) ELSE @]
      a == TLCEval([i \in 1 .. n |-> Value(ky, i, z)])
      b == TLCEval([i \in 1 .. n |-> IF z > 0 /\ a[i] = "0" /\ Chance(ky, 50, 1, 2) THEN "0" ELSE Value(ky \o <<1>>, i, IF Chance(ky, 51, 1, 2) THEN z ELSE 0)])
      os == SetToSeq(Orders(Range(v)))
      kl(x, y, m) == [op |-> "kl", a |-> x, b |-> y, nrm |-> m, out |-> 0]
      un(x) == <<[op |-> "dfv", a |-> x, out |-> 0], [op |-> "isvac", a |-> x, out |-> 0]>>
      sc(t, x) == TLCEval([i \in 1 .. n |-> RMul(t[i], x)])
      one == [i \in 1 .. n |-> "1"]
  IN <<new(1, a), new(2, b), new(3, sc(a, "1/1024")), new(4, sc(a, "7")), new(5, sc(one, "5/8")), new(6, [one EXCEPT ![n] = "1001/1000"]), new(7, [one EXCEPT ![1] = "3"]),
       new(8, [one EXCEPT ![n] = "0"])>>
     \o FlattenSeq([i \in DOMAIN os |-> <<[op |-> "reorder", a |-> 2, vars |-> os[i], out |-> 20 + i], kl(1, 20 + i, TRUE), kl(20 + i, 1, TRUE)>>])
     \o <<kl(1, 2, FALSE), kl(3, 2, TRUE), kl(3, 2, FALSE), kl(2, 4, TRUE), kl(2, 4, FALSE), kl(1, 3, TRUE), kl(5, 6, TRUE), kl(7, 5, TRUE), kl(5, 7, TRUE), kl(5, 8, TRUE), kl(8, 5, TRUE),
          kl(1, 1, TRUE)>>
     \o FlattenSeq([i \in 1 .. 8 |-> un(i)])
KLPrograms == {KLProg(v, c, sp, z) : v \in {<<"b", "a", "x10">>, <<"x2", "a", "b">>}, c \in {<<2, 2, 2>>, <<2, 3, 2>>, <<3, 3, 3>>, <<1, 2, 4>>}, sp \in BOOLEAN, z \in {0, 2}}
              \cup {KLProg(v, c, sp, z) : v \in {<<"b", "a">>, <<"a", "b">>}, c \in {<<2, 2>>, <<3, 3>>, <<2, 3>>, <<1, 1>>}, sp \in BOOLEAN, z \in {0, 3}}
              \cup {KLProg(<<"a">>, <<c>>, sp, z) : c \in {1, 2, 3, 12}, sp \in BOOLEAN, z \in {0, 3}}
              \cup {KLProg(<<"x2", "b", "x10", "a">>, <<2, 2, 2, 2>>, sp, 1) : sp \in BOOLEAN}

\* assignment names: agreement on all shared variables, or a deviation for one of them
NamesProg(a, b, dev) ==
  LET ka == Key(<<5, 0>> \o ScopeKey(a) \o <<0>> \o ScopeKey(b))
      kb == Key(<<6, 0>> \o ScopeKey(a) \o <<0>> \o ScopeKey(b))
      k == Len(b)
  IN <<NewDense(1, a, ka, 0, 1, ""), NewDense(2, b, kb, 0, 2, dev),
       [op |-> "mul", a |-> 1, b |-> 2, out |-> 3], [op |-> "div", a |-> 1, b |-> 2, out |-> 4],
       [op |-> "cancel", a |-> 1, b |-> 2, out |-> 5], [op |-> "mul", a |-> 2, b |-> 1, out |-> 6],
       [op |-> "marg", a |-> 2, vars |-> IF k = 0 THEN b ELSE SubSeq(Shuffle(kb, 1, b), 1, 1), keep |-> TRUE, out |-> 7],
       [op |-> "reorder", a |-> 2, vars |-> Shuffle(kb, 2, b), out |-> 8],
       [op |-> "list", a |-> 8, named |-> TRUE, df |-> TRUE, out |-> 0], [op |-> "argmaxn", a |-> 8, out |-> 0],
       [op |-> "mul", a |-> 1, b |-> 7, out |-> 9], [op |-> "cancel", a |-> 8, b |-> 1, out |-> 10]>>
     \o (IF SameSet(a, b) THEN <<[op |-> "kl", a |-> 1, b |-> 2, nrm |-> TRUE, out |-> 0]>> ELSE <<>>)
NamesPrograms(S) == {NamesProg(a, b, d) : a \in OrderedSubsets(S), b \in OrderedSubsets(S) , d \in S \cup {""}}

\* sparse factors over many variables: sums, normalisation, observation
BigCmd(n, card, df, how, k, h) ==
  LET ky == Key(<<17, n, card, k, Len(how)>>)
      v == [i \in 1 .. n |-> "v" \o ToString(i)]
      c == [i \in 1 .. n |-> IF card = 0 THEN 2 + Hash(ky \o <<1, i>>, 3) ELSE card]
      base == [i \in 1 .. n |-> Hash(ky \o <<2, i>>, c[i])]
      \* the stored rows differ from each other in the first few variables
      rows == [j \in 1 .. 6 |-> [a |-> [i \in 1 .. n |-> IF i <= 3 THEN ((j \div <<1, 2, 4>>[i]) % 2) ELSE base[i]], w |-> RDiv(RInt(1 + Hash(ky \o <<3, j>>, 9)), "4")]]
      vs == Shuffle(ky, 4, <<"v2", "v1", "v" \o ToString(n)>>)
      inner == SelectSeq(v, LAMBDA x : x \in {"v1", "v2"})
      kept == IF how = "reduce" THEN inner ELSE SubSeq(vs, 1, k)
      gone == Without(v, kept)
  IN [op |-> "bigsp", out |-> h, v |-> v, c |-> c, df |-> df, how |-> how, vars |-> kept, rows |-> rows,
      at |-> [i \in DOMAIN gone |-> IF gone[i] = "v3" THEN k % 2 ELSE base[Pos(v, gone[i])]]]
BigPrograms == {[j \in 1 .. 4 |-> BigCmd(n, card, df, <<"marg", "norm", "reduce", IF df = "0" THEN "square" ELSE "marg">>[j], k, j)] :
                n \in {10, 31, 32, 40, 63, 64, 65, 80}, card \in {0, 2, 3}, df \in {"0", "1", "1/1024"}, k \in 1 .. 3}

\* ----------------------------------------------------- random programs
Handles(p) == SetToSeq(DOMAIN p)
Big(T) == Len(T.t) > 36 /\ (Len(T.t) > 60 \/ Len(T.v) > 3)

RandNew(ky, h, fam) ==
  LET v == Some(ky, 20, TV, 0, 3)
      z == <<0, 0, 2, 5>>[1 + R(ky, 22, 4)]
      sparse == CASE fam = "dense" -> FALSE [] fam = "sparse" -> TRUE [] fam = "names" -> Chance(ky, 23, 1, 20) [] OTHER -> Chance(ky, 23, 1, 2)
      prm == <<SEED, ky[2]>>    \* choices that are fixed for a whole program
      nmode == IF fam = "names" THEN (IF v # <<>> /\ Chance(ky, 25, 1, 4) THEN 2 ELSE 1) ELSE R(prm, 26, 2)
      dfs == CASE R(prm, 27, 3) = 0 -> "0" [] OTHER -> OneOf(prm, 28, <<"1", "1/2", "5/4">>)
      df == IF fam = "sparse" /\ Chance(ky, 29, 1, 8) THEN "1/4" ELSE dfs
  IN IF sparse THEN NewSparse(h, v, ky, z, df, <<2, 4, 6, 8>>[1 + R(ky, 24, 4)])
     ELSE NewDense(h, v, ky, z, nmode, IF v = <<>> THEN "" ELSE OneOf(ky, 30, v))

Ops(fam) == CASE fam = "algebra" -> <<"mul", "mul", "div", "cancel", "marg", "marg", "reduce", "norm", "reorder", "copy">>
              [] fam \in {"dense", "sparse"} ->
                   <<"mul", "mul", "div", "cancel", "marg", "marg", "reduce", "norm", "reorder", "copy", "pot", "weight", "kl", "eq">>
              [] fam = "names" -> <<"mul", "mul", "div", "cancel", "marg", "reduce", "norm", "reorder", "copy", "kl", "list", "argmaxn">>
              [] fam = "frame" -> <<"mul", "div", "cancel", "marg", "reduce", "norm", "reorder", "copy", "pot", "kl", "eq", "ne",
                                    "dfv", "isvac", "argmax", "list", "show", "poke", "poke", "poke">>
              [] fam = "equal" -> <<"copy", "reorder", "mul", "div", "cancel", "eq", "eq", "eq", "ne", "marg", "norm", "tweak", "densify">>
              [] fam = "cancel" -> <<"mul", "mul", "cancel", "cancel", "cancel", "marg", "reduce", "reorder", "norm", "div">>
              [] fam = "eval" -> <<"pot", "pot", "argmax", "argmaxn", "list", "list", "show", "reorder", "marg", "mul", "reduce", "copy", "cancel">>
              [] fam = "kl" -> <<"kl", "kl", "kl", "mul", "reorder", "copy", "dfv", "isvac", "norm", "marg">>

RandCmd(ky, p, h, fam) ==
  LET hs == Handles(p)
      a == OneOf(ky, 1, hs)
      A == p[a]
      b0 == OneOf(ky, 2, hs)
      same == SelectSeq(hs, LAMBDA x : SameShape(p[x], A) /\ p[x].sp = A.sp)
      op == OneOf(ky, 3, Ops(fam))
      b == IF op \in {"kl", "eq", "ne"} /\ Chance(ky, 4, 7, 8) THEN OneOf(ky, 5, same) ELSE b0
  IN CASE op \in {"mul", "div", "cancel"} -> [op |-> op, a |-> a, b |-> b, out |-> h, alias |-> R(ky, 6, 2)]
       [] op = "marg" -> LET kp == Chance(ky, 7, 3, 4) IN
                         [op |-> op, a |-> a, vars |-> Some(ky, 8, A.v, 0, 4), keep |-> kp, out |-> h]
       [] op = "reduce" -> LET vs == Some(ky, 8, A.v, 0, 2) IN
                           [op |-> op, a |-> a, vars |-> vs, alias |-> R(ky, 6, 2),
                            vals |-> [i \in DOMAIN vs |-> Hash(ky \o <<31, i>>, CardOf(A, vs[i]))], out |-> h]
       [] op = "reorder" -> [op |-> op, a |-> a, vars |-> Shuffle(ky, 8, A.v), out |-> h]
       [] op = "tweak" -> \* the same factor with one value changed a lot, or by less than the tolerance
            LET i == 1 + R(ky, 9, Len(A.t))
                x == A.t[i]
                far == Chance(ky, 10, 1, 2)
                eps == IF Chance(ky, 11, 1, 2) THEN "1000000000001/1000000000000" ELSE OneOf(ky, 12, <<"10000001/10000000", "1001/1000", "20/19">>)
            IN [op |-> "newtab", out |-> h, v |-> A.v, c |-> A.c, sp |-> A.sp, nm |-> A.nm,
                t |-> [A.t EXCEPT ![i] = IF Undef(x) THEN "0" ELSE IF x = "0" THEN (IF far THEN "1" ELSE "0")
                                         ELSE IF far THEN RMul(x, "2") ELSE RMul(x, eps)],
                df |-> A.df, ex |-> [j \in DOMAIN A.t |-> j], style |-> 1]
       [] op = "densify" -> \* the same function, other assignments stored
            [op |-> "newtab", out |-> h, v |-> A.v, c |-> A.c, sp |-> A.sp, nm |-> A.nm, t |-> A.t, df |-> A.df,
             ex |-> SelectSeq([j \in DOMAIN A.t |-> j], LAMBDA j : A.t[j] # A.df \/ Chance(ky, 40 + j, 1, 2)), style |-> 1]
       [] op \in {"norm", "copy"} -> [op |-> op, a |-> a, out |-> h]
       [] op = "kl" -> [op |-> op, a |-> a, b |-> b, nrm |-> Chance(ky, 6, 3, 4), out |-> 0]
       [] op \in {"eq", "ne"} -> [op |-> op, a |-> a, b |-> b, out |-> 0, alias |-> R(ky, 6, 2)]
                                 @@ (IF op = "eq" /\ Moderate(A) /\ Moderate(p[b]) /\ Chance(ky, 13, 1, 3)
                                     THEN [tol |-> OneOf(ky, 14, Tols)] ELSE <<>>)
       [] op = "pot" -> LET vs == Shuffle(ky, 8, A.v) IN
                        [op |-> op, a |-> a, vars |-> vs, out |-> 0,
                         vals |-> [i \in DOMAIN vs |-> Hash(ky \o <<31, i>>, CardOf(A, vs[i]))]]
       [] op = "list" -> LET nmd == ~ A.sp /\ Chance(ky, 6, 1, 2) IN
                         [op |-> op, a |-> a, named |-> nmd, df |-> nmd \/ (~ A.sp /\ Chance(ky, 7, 1, 2)), out |-> 0]
       [] OTHER -> [op |-> op, a |-> a, out |-> 0]

\* In the domain: defined values only, a limited size, poke (changing an object behind the back) on everything.
Legal(c, p, fam) ==
  CASE c.op = "newtab" -> Len(c.v) > 0 \/ ~ c.sp
    [] c.op = "poke" -> TRUE
    [] c.op \in {"weight", "argmaxn"} /\ p[c.a].sp = (c.op = "argmaxn") -> FALSE
    [] c.op \in {"pot", "list", "show", "weight", "argmax", "argmaxn", "tweak", "densify"} /\ ~ Moderate(p[c.a]) -> FALSE
    [] OTHER -> LET o == Outcome(c, p) IN
                CASE o.o = "any" -> FALSE
                  [] o.o = "val" -> Defined(o.v) /\ ~ Big(o.v) /\ o.v.df # "?"
                  [] OTHER -> TRUE

Apply(c, p) ==
  IF c.op = "poke" THEN [x \in DOMAIN p \ {c.a} |-> p[x]]
  ELSE LET o == Outcome(c, p) IN IF o.o = "val" THEN (c.out :> o.v) @@ p ELSE p

NextCmd(fam) ==
  LET h == 1 + Len(prog)
      Try(i) == RandCmd(key \o <<i>>, pool, h, fam)
      good == {i \in 1 .. 4 : Legal(Try(i), pool, fam)}
  IN IF DOMAIN pool = {} \/ Len(prog) < 2 \/ good = {} \/ Chance(key, 50, 1, 8) THEN RandNew(key, h, fam)
     ELSE Try(CHOOSE i \in good : \A j \in good : i <= j)

\* ------------------------------------------------------------------ spec
Enumerated(m) ==
  CASE m = "enum-dense-bin" -> BinPrograms(V3, 1, FALSE) \cup BinPrograms(V3x, 0, FALSE)
    [] m = "enum-dense-unary" -> UnaryPrograms(V4, 1, FALSE)
    [] m = "enum-dense-bin4" -> BinPrograms(V4, 1, FALSE)
    [] m = "enum-sparse-bin" -> BinPrograms(V3, 1, TRUE)
    [] m = "enum-sparse-unary" -> UnaryPrograms(V3, 1, TRUE) \cup UnaryPrograms(V3x, 0, TRUE)
    [] m = "enum-names" -> NamesPrograms({"b", "a"}) \cup NamesPrograms({"x10", "a", "x2"})
    [] m = "enum-sparse-bin4" -> BinPrograms(V4, 1, TRUE)
    [] m = "enum-plot" -> PlotPrograms(V3)
    [] m = "enum-big" -> BigPrograms
    [] m = "enum-equal" -> EqualPrograms(V3) \cup CardsPrograms
    [] m = "enum-kl" -> KLPrograms
    [] m = "enum-eval" -> EvalPrograms(V4, 1, FALSE) \cup EvalPrograms(V3, 1, TRUE) \cup EvalPrograms(V3x, 2, TRUE)
    [] OTHER -> {}
RandomMode == CASE MODE = "rand-dense" -> "dense" [] MODE = "rand-sparse" -> "sparse" [] MODE = "rand-names" -> "names"
                [] MODE = "rand-frame" -> "frame" [] MODE = "rand-equal" -> "equal" [] MODE = "rand-kl" -> "kl"
                [] MODE = "rand-algebra" -> "algebra" [] MODE = "rand-cancel" -> "cancel"
                [] MODE = "rand-eval" -> "eval" [] OTHER -> ""

EnumInit == /\ RandomMode = "" /\ sid = 0 /\ pool = <<>> /\ key = <<>>
            /\ prog \in Enumerated(MODE)
EnumNext == /\ RandomMode = "" /\ sid = 0 /\ sid' = 1
            /\ PrintT(ToJson([prog |-> prog]))
            /\ UNCHANGED <<prog, pool, key>>

RandInit == /\ RandomMode # "" /\ sid \in 1 .. N /\ prog = <<>> /\ pool = <<>> /\ key = <<SEED, sid, 0>>
RandNext == /\ RandomMode # "" /\ Len(prog) < D
            /\ LET c == NextCmd(RandomMode) IN
               /\ pool' = Apply(c, pool)
               /\ prog' = Append(prog, c)
               /\ Len(prog) + 1 = D => PrintT(ToJson([prog |-> prog']))
            /\ key' = [key EXCEPT ![3] = key[3] + 1]
            /\ UNCHANGED sid

Init == EnumInit \/ RandInit
Next == EnumNext \/ RandNext
Spec == Init /\ [][Next]_vars
=============================================================================
