------------------------------- MODULE GenArgs --------------------------------
(***************************************************************************)
(* Calls with all kinds of arguments: every shape that is documented, and   *)
(* all the ways of getting them wrong.                                        *)
(***************************************************************************)
EXTENDS FactorPool, GenBase, Json

CONSTANTS SEED, N, D, MODE

VARIABLES sid, prog
vars == <<sid, prog>>

NoArg == [t |-> "none"]
Str(x) == [t |-> "str", x |-> x]
NumA(x) == [t |-> "num", x |-> x]
IntA(x) == [t |-> "num", x |-> x, int |-> TRUE]
L(s) == [t |-> "list", x |-> s]
NumsL(s) == L([i \in DOMAIN s |-> NumA(s[i])])
RowsL(M) == L([i \in DOMAIN M |-> NumsL(M[i])])
Arr(sh, x) == [t |-> "arr", sh |-> sh, x |-> x]

Quarter(ky, i, lim) == RDiv(RSub(RInt(Hash(ky \o <<61, i>>, 2 * lim + 1)), RInt(lim)), "4")
Spd(ky, n) ==
  LET LT == TLCEval([i \in 1 .. n |-> [j \in 1 .. n |->
             IF j > i THEN "0" ELSE IF i = j THEN <<"1/2", "1", "3/2", "2">>[1 + Hash(ky \o <<62, i>>, 4)]
             ELSE <<"0", "1/4", "-1/2", "1">>[1 + Hash(ky \o <<63, i, j>>, 4)]]])
  IN MatMul(LT, Transp(LT, n), n)
Flat(M) == FlattenSeq(M)

\* ------------------------------------------------------------- Gaussians
\* (an odd shape where several numbers make one is avoided, as is a string in a list)
Matrices(ky) ==
  LET S1 == Spd(ky, 1) S2 == Spd(ky \o <<1>>, 2) S3 == Spd(ky \o <<2>>, 3)
  IN <<NumA(S1[1][1]), IntA("2"), L(<<NumA(S1[1][1])>>), RowsL(S1), RowsL(S2), RowsL(S3), Arr(<<1, 1>>, Flat(S1)), Arr(<<2, 2>>, Flat(S2)),
       Arr(<<3, 3>>, Flat(S3)), L(<<>>), L(<<IntA("1"), IntA("2")>>), L(<<NumsL(<<"1", "0">>), NumsL(<<"0">>)>>), L(<<NumsL(<<"1", "0">>)>>),
       L(<<NumsL(<<"1">>), NumsL(<<"2">>)>>), L(<<NumsL(<<"1">>), NumA("1")>>), Arr(<<2>>, <<"1", "1">>), Arr(<<1, 2>>, <<"1", "1">>),
       Arr(<<2, 1>>, <<"1", "1">>), Arr(<<2, 3>>, <<"1", "0", "0", "0", "1", "0">>), Arr(<<1, 1, 1>>, <<"1">>), Arr(<<1>>, <<"1">>), Str("1"),
       L(<<L(<<IntA("2"), IntA("1")>>), L(<<IntA("1"), IntA("3")>>)>>)>>
Vectors(ky) ==
  LET q(i) == Quarter(ky, i, 8)
  IN <<NumA(q(1)), IntA("3"), NumsL(<<q(2)>>), NumsL(<<q(3), q(4)>>), NumsL(<<q(5), q(6), q(7)>>), L(<<NumsL(<<q(8)>>), NumsL(<<q(9)>>)>>),
       L(<<NumsL(<<q(8)>>)>>), L(<<NumsL(<<q(10), q(11)>>)>>), Arr(<<1>>, <<q(1)>>), Arr(<<2>>, <<q(2), q(3)>>), Arr(<<1, 1>>, <<q(1)>>),
       Arr(<<2, 1>>, <<q(4), q(5)>>), Arr(<<1, 2>>, <<q(6), q(7)>>), Arr(<<2, 2>>, <<q(1), q(2), q(3), q(4)>>), Arr(<<3, 1>>, <<q(1), q(2), q(3)>>),
       L(<<>>), L(<<NumsL(<<q(1), q(2)>>), NumsL(<<q(3)>>)>>), Arr(<<0>>, <<>>), L(<<IntA("1"), IntA("-2")>>)>>
Scalars(ky) ==
  LET q(i) == Quarter(ky, 40 + i, 8)
  IN <<NumA(q(1)), IntA("1"), NumsL(<<q(2)>>), Arr(<<1>>, <<q(3)>>), Arr(<<1, 1>>, <<q(4)>>), NumsL(<<q(1), q(2)>>), Arr(<<2>>, <<q(1), q(2)>>), L(<<>>),
       Arr(<<2, 1>>, <<q(1), q(2)>>), Str("1")>>
Names(n) == SubSeq(<<"b", "a", "x10", "x2", "c", "z">>, 1, n)
RawG(names, par) == [op |-> "rawgau", out |-> 0, hasnames |-> TRUE, names |-> names, par |-> par]
Par(can, M, m, w) ==
  IF can THEN [prec |-> M, h |-> m, g |-> w, cov |-> NoArg, mean |-> NoArg, lw |-> NoArg]
  ELSE [prec |-> NoArg, h |-> NoArg, g |-> NoArg, cov |-> M, mean |-> m, lw |-> w]
\* all calls in programs of c calls, numbered
Split(calls, c) ==
  [k \in 1 .. (1 + ((Len(calls) - 1) \div c)) |->
   LET i == k - 1
       part == SubSeq(calls, 1 + c * i, IF c * (i + 1) < Len(calls) THEN c * (i + 1) ELSE Len(calls))
   IN [j \in DOMAIN part |-> [part[j] EXCEPT !.out = 100 + j]]]
GauCalls(ky, n, can) ==
  LET Ms == Matrices(ky \o <<n>>) ms == Vectors(ky \o <<n, 2>>) ws == Scalars(ky \o <<n, 3>>) IN
  TLCEval([i \in 1 .. (Len(Ms) * Len(ms)) |->
     RawG(Names(n), Par(can, Ms[1 + ((i - 1) \div Len(ms))], ms[1 + ((i - 1) % Len(ms))], ws[1 + (i % 5)]))])
  \o [i \in 1 .. (Len(ws) * 3) |->
     LET w == ws[1 + ((i - 1) \div 3)] k == (i - 1) % 3
         S == Spd(ky \o <<n, i>>, n)
         q == [j \in 1 .. n |-> Quarter(ky \o <<i>>, j, 6)] IN
     RawG(Names(n), Par(can, IF k = 0 THEN RowsL(S) ELSE Arr(<<n, n>>, Flat(S)), IF k = 1 THEN NumsL(q) ELSE Arr(<<n, 1>>, q), w))]
\* all subsets of the parameters, and bad names
SubsetCalls(ky, n) ==
  LET S == Arr(<<n, n>>, Flat(Spd(ky \o <<n, 7>>, n)))
      q == NumsL([j \in 1 .. n |-> Quarter(ky, j, 6)])
      full == [prec |-> S, h |-> q, g |-> NumA("1/4"), cov |-> S, mean |-> q, lw |-> NumA("0")]
      subs == SetToSeq(SUBSET DOMAIN full)
      some(s) == [p \in DOMAIN full |-> IF p \in s THEN full[p] ELSE NoArg]
      bad == <<Names(n + 1), SubSeq(Names(n), 1, n - 1), [i \in 1 .. n |-> "b"], [i \in 1 .. n |-> IF i = n THEN "b" ELSE Names(n)[i]]>>
      pars == <<some({"prec", "h", "g"}), some({"cov", "mean", "lw"})>>
  IN [i \in DOMAIN subs |-> RawG(Names(n), some(subs[i]))]
     \o [i \in 1 .. (2 * Len(bad)) |-> RawG(bad[(i + 1) \div 2], pars[1 + (i % 2)])]
     \o [i \in 1 .. 2 |-> [RawG(Names(n), pars[i]) EXCEPT !.hasnames = FALSE]]
     \o [i \in 1 .. 4 |-> [op |-> "newstd", out |-> 0, v |-> Names(i - 1)]] \o <<[op |-> "newstd", out |-> 0, v |-> <<"a", "a">>]>>
\* as many numbers as variables, in all shapes
ShapeCalls(ky, n, can) ==
  LET q == TLCEval([i \in 1 .. n |-> Quarter(ky, i, 8)])
      M == TLCEval(Spd(ky, n))
      h == n \div 2
      rows(r, c) == RowsL([i \in 1 .. r |-> [j \in 1 .. c |-> q[((i - 1) * c) + j]]])
      ms == <<NumsL(q), Arr(<<n>>, q), Arr(<<n, 1>>, q), Arr(<<1, n>>, q), Arr(<<h, 2>>, q), Arr(<<2, h>>, q), rows(n, 1), rows(1, n), rows(h, 2), rows(2, h)>>
      Ms == <<RowsL(M), Arr(<<n, n>>, Flat(M)), Arr(<<n * n>>, Flat(M)), Arr(<<1, n * n>>, Flat(M)), Arr(<<h, 2 * n>>, Flat(M)), NumsL(Flat(M)),
              RowsL([i \in 1 .. h |-> [j \in 1 .. (2 * n) |-> Flat(M)[((i - 1) * 2 * n) + j]]])>>
  IN TLCEval([i \in DOMAIN ms |-> RawG(Names(n), Par(can, Ms[1], ms[i], NumA("1/4")))])
     \o [i \in DOMAIN Ms |-> RawG(Names(n), Par(can, Ms[i], ms[2], NumA("1/4")))]
GauPrograms ==
  LET ky == <<SEED, 5>> IN
  Split(FlattenSeq([i \in 1 .. 6 |-> GauCalls(ky, 1 + (i \div 2) - (IF i % 2 = 0 THEN 1 ELSE 0), i % 2 = 0)])
     \o SubsetCalls(ky, 1) \o SubsetCalls(ky, 2)
     \o ShapeCalls(ky, 4, TRUE) \o ShapeCalls(ky, 4, FALSE) \o ShapeCalls(ky, 6, TRUE) \o ShapeCalls(ky, 6, FALSE), 40)

\* ---------------------------------------------------------------- tables
Val0(ky, i) == IF Hash(ky \o <<7, i>>, 5) = 0 THEN "0" ELSE RDiv(RInt(1 + Hash(ky \o <<8, i>>, 40)), "8")
AllAsg(c) == \* all assignments, in order
  [i \in 1 .. IProd(c) |-> [j \in DOMAIN c |-> ((i - 1) \div IProd(SubSeq(c, j + 1, Len(c)))) % c[j]]]
Dict(s) == [t |-> "dict", x |-> s]
Keys(ky, ks) == Dict([i \in DOMAIN ks |-> <<ks[i], Val0(ky, i)>>])
Cards(c) == [t |-> "cards", x |-> c]
Ten(sh, ky) == Arr(sh, [i \in 1 .. IProd(sh) |-> Val0(ky, i)])
Nm(s) == [t |-> "names", x |-> s]
Scopes0 == << <<>>, <<"b">>, <<"b", "a">>, <<"a", "b", "x10">>, <<"b", "b">>, <<"b", "a", "b">> >>
CardsFor == << <<>>, <<2>>, <<3>>, <<2, 3>>, <<3, 2>>, <<1, 2>>, <<3, 2, 2>> >>
NamesFor0(c, k) ==
  LET w == <<"'no'", "'yes'", "3">> IN
  CASE k = 0 -> NoArg
    [] k = 1 -> Nm([i \in DOMAIN c |-> SubSeq(w, 1, c[i])])
    [] k = 2 -> Nm([i \in DOMAIN c |-> SubSeq(w, 1, IF i = 1 THEN c[i] - 1 ELSE c[i])])
    [] k = 3 -> Nm([i \in 1 .. (Len(c) + 1) |-> SubSeq(w, 1, 2)])
    [] k = 4 -> Nm([i \in DOMAIN c |-> [j \in 1 .. c[i] |-> "'same'"]])
    [] k = 5 -> Nm(IF c = <<>> THEN <<>> ELSE [i \in 1 .. (Len(c) - 1) |-> SubSeq(w, 1, c[i])])
    [] OTHER -> Nm([i \in DOMAIN c |-> SubSeq(w \o <<"'more'", "'last'">>, 1, c[i] + 1)])
TableArg(ky, c, k) == \* [tab, ten]
  LET all == AllAsg(c)
      one(x) == [tab |-> Keys(ky, x), ten |-> NoArg]
  IN CASE k = 0 -> one(all)
       [] k = 1 -> one(Shuffle(ky, 3, SelectSeq(all, LAMBDA a : Hash(ky \o a, 2) = 0)))
       [] k = 2 -> [tab |-> NoArg, ten |-> Ten(c, ky)]
       [] k = 3 -> [tab |-> NoArg, ten |-> NoArg]
       [] k = 4 -> one(Append(all, IF c = <<>> THEN <<1>> ELSE [[i \in DOMAIN c |-> 0] EXCEPT ![Len(c)] = c[Len(c)]]))
       [] k = 5 -> one(<<[i \in 1 .. (Len(c) + 1) |-> 0]>>)
       [] k = 6 -> [tab |-> NoArg, ten |-> Ten(Append(c, 1), ky)]
       [] k = 7 -> [tab |-> NoArg, ten |-> Ten(IF c = <<>> THEN <<2>> ELSE Tail(c), ky)]
       [] k = 8 -> one(<<>>)
       [] OTHER -> one(<<[i \in DOMAIN c |-> IF i = 1 THEN c[1] + 1 ELSE 0]>>)
RawT(names, sp, cards, ta, nm, ky) ==
  [op |-> "rawtab", out |-> 0, names |-> names, sp |-> sp, cards |-> cards, tab |-> ta.tab, ten |-> IF sp THEN NoArg ELSE ta.ten,
   nm |-> IF sp THEN NoArg ELSE nm, df |-> IF sp THEN <<"0", "1/2">>[1 + Hash(ky, 2)] ELSE "", logs |-> Hash(ky \o <<2>>, 2) = 0]
TabCall(x) == \* x: names, cards, table, value names, sparse, are the cardinalities given?
  LET ky == <<SEED, x[1], x[2], x[3], x[4]>>
      c == CardsFor[x[2]]
      ta == TableArg(ky, c, x[3])
  IN RawT(Scopes0[x[1]], x[5], IF x[6] THEN Cards(c) ELSE NoArg, ta, NamesFor0(c, x[4]), ky)
TabPrograms ==
  LET S == {x \in (DOMAIN Scopes0) \X (DOMAIN CardsFor) \X (0 .. 9) \X (0 .. 6) \X BOOLEAN \X BOOLEAN :
              /\ x[5] => x[4] = 0 /\ x[3] \notin {2, 6, 7}
              /\ (x[4] # 0 => x[3] \in {0, 2})
              /\ ~ (Scopes0[x[1]] = <<>> /\ x[5])}
      calls == SetToSeq(S)
  IN Split([i \in DOMAIN calls |-> TabCall(calls[i])], 40)

\* ------------------------------------------------------------ operations
Table(h, v, c, sp, ky) ==
  [op |-> "newtab", out |-> h, v |-> v, c |-> c, sp |-> sp, df |-> IF sp THEN "0" ELSE "", t |-> TLCEval([i \in 1 .. IProd(c) |-> RDiv(RInt(1 + Hash(ky \o <<8, i>>, 40)), "8")]),
   nm |-> [i \in DOMAIN v |-> IF sp THEN <<>> ELSE SubSeq(<<"0", "1", "2">>, 1, c[i])], ex |-> IF sp THEN [i \in 1 .. IProd(c) |-> i] ELSE <<>>, style |-> Hash(ky, 2)]
GauNew(h, v, form, ky) ==
  [op |-> "newgau", out |-> h, v |-> v, form |-> form, M |-> Spd(ky, Len(v)), m |-> [i \in DOMAIN v |-> Quarter(ky, i, 8)], w |-> "1/4", lists |-> FALSE]
\* scopes of calls on a factor with the variables v
Lists(v) == LET S == Range(v) \cup {"z"} IN
            SetToSeq(OrderedSubsets(S) \cup {<<v[1], v[1]>>, <<v[1], "z", v[1]>>, v \o v, <<"">>, Append(v, v[1])})
ArgCalls(a, v, tab, ks) ==
  LET ls == Lists(v)
      num(i) == IF tab THEN i % 2 ELSE RDiv(RInt(i), "2")
      vals(l, d) == LET n == IF Len(l) + d < 0 THEN 0 ELSE Len(l) + d IN [i \in 1 .. n |-> num(i)]
      over(l) == [i \in DOMAIN l |-> IF i = Len(l) THEN 3 ELSE 0]
      each(F(_)) == FlattenSeq([i \in DOMAIN ls |-> F(ls[i])])
      fresh(s) == s
  IN each(LAMBDA l : <<[op |-> "marg", a |-> a, vars |-> l, keep |-> TRUE, out |-> 0], [op |-> "marg", a |-> a, vars |-> l, keep |-> FALSE, out |-> 0]>>)
     \o each(LAMBDA l : [d \in 1 .. 3 |-> [op |-> "reduce", a |-> a, vars |-> l, vals |-> vals(l, d - 2), alias |-> d % 2, out |-> 0]])
     \o (IF tab THEN each(LAMBDA l : <<[op |-> "reorder", a |-> a, vars |-> l, out |-> 0], [op |-> "pot", a |-> a, vars |-> l, vals |-> vals(l, 0), out |-> 0],
                                       [op |-> "pot", a |-> a, vars |-> l, vals |-> over(l), out |-> 0],
                                       [op |-> "reduce", a |-> a, vars |-> l, vals |-> over(l), alias |-> 0, out |-> 0]>>)
         ELSE IF "gpot" \in ks
              THEN each(LAMBDA l : [d \in 1 .. 3 |-> [op |-> "gpot", a |-> a, vars |-> l, vals |-> vals(l, d - 2), lg |-> TRUE, shape |-> d % 3, out |-> 0]])
                   \o [d \in 1 .. 4 |-> [op |-> "gpot", a |-> a, vars |-> <<>>, vals |-> [i \in 1 .. (d - 1) |-> num(i)], lg |-> d % 2 = 0, shape |-> 0, out |-> 0]]
              ELSE <<>>)
\* a program per factor
ArgProg(new, h, v, tab, ks) == LET cs == ArgCalls(h, v, tab, ks) IN
  {new \o SubSeq(cs, 1 + 60 * i, IF 60 * (i + 1) < Len(cs) THEN 60 * (i + 1) ELSE Len(cs)) : i \in 0 .. ((Len(cs) - 1) \div 60)}
Nlg(h, vin, vout, ky) ==
  [op |-> "newnlg", out |-> h, vin |-> vin, vout |-> vout, A |-> [i \in DOMAIN vout |-> [j \in DOMAIN vin |-> Quarter(ky, i + 3 * j, 6)]],
   N |-> Spd(ky, Len(vout)), m |-> [i \in DOMAIN vout |-> Quarter(ky, 30 + i, 6)], w |-> "0", byname |-> FALSE]
ArgPrograms ==
  LET vs == {<<"b">>, <<"b", "a">>, <<"x10", "a", "b">>}
      ky(v) == <<SEED, Len(v), 3>>
      c(v) == SubSeq(<<2, 3, 2>>, 1, Len(v))
      g(h, v, k) == GauNew(h, v, IF k = 0 THEN "can" ELSE "cov", ky(v) \o <<k>>)
      nv == <<"b", "a">>
  IN UNION {ArgProg(<<Table(1, v, c(v), sp, ky(v))>>, 1, v, TRUE, {}) : v \in vs, sp \in BOOLEAN}
     \cup UNION {ArgProg(<<g(1, v, k)>>, 1, v, FALSE, {"gpot"}) : v \in vs, k \in {0, 1}}
     \cup UNION {ArgProg(<<g(1, v, 0), g(2, v, 1), [op |-> "newmix", hs |-> <<1, 2>>, cm |-> 0, out |-> 3]>>, 3, v, FALSE, {"gpot"}) : v \in vs}
     \cup ArgProg(<<Nlg(1, <<"b">>, <<"a">>, <<SEED, 8>>)>>, 1, nv, FALSE, {})
     \cup ArgProg(<<Nlg(1, <<"b">>, <<"a">>, <<SEED, 8>>), GauNew(2, <<"b">>, "cov", <<SEED, 9>>), [op |-> "mul", a |-> 1, b |-> 2, alias |-> 0, out |-> 3]>>, 3, nv, FALSE, {})
     \cup ArgProg(<<Nlg(1, <<"b">>, <<"a">>, <<SEED, 8>>), GauNew(2, <<"b">>, "cov", <<SEED, 9>>), [op |-> "mul", a |-> 1, b |-> 2, alias |-> 0, out |-> 3],
                    [op |-> "newnlm", hs |-> <<3, 3>>, split |-> FALSE, out |-> 4]>>, 4, nv, FALSE, {})

\* every operation of two factors, for all kinds of factors
Kind(h, k, ky) == \* commands that make a factor of kind k with handle h
  CASE k = "dense" -> <<Table(h, <<"b", "a">>, <<2, 3>>, FALSE, ky)>>
    [] k = "dense3" -> <<Table(h, <<"a", "x10">>, <<2, 2>>, FALSE, ky)>>
    [] k = "dense1" -> <<Table(h, <<"b">>, <<1>>, FALSE, ky)>>
    [] k = "denses" -> <<Table(h, <<"a", "b">>, <<3, 2>>, FALSE, ky)>>
    [] k = "densex" -> <<Table(h, <<"a", "b">>, <<3, 3>>, FALSE, ky)>>
    [] k = "sparse" -> <<Table(h, <<"b", "a">>, <<2, 3>>, TRUE, ky)>>
    [] k = "sparse3" -> <<Table(h, <<"a", "x10">>, <<2, 2>>, TRUE, ky)>>
    [] k = "sparse1" -> <<Table(h, <<"b">>, <<2>>, TRUE, ky)>>
    [] k = "sparses" -> <<Table(h, <<"a", "b">>, <<3, 2>>, TRUE, ky)>>
    [] k = "sparsex" -> <<Table(h, <<"a", "b">>, <<3, 3>>, TRUE, ky)>>
    [] k = "gau" -> <<GauNew(h, <<"b", "a">>, "cov", ky)>>
    [] k = "gau1" -> <<GauNew(h, <<"b">>, "can", ky)>>
    [] k = "mix" -> <<GauNew(h + 1, <<"b", "a">>, "cov", ky), GauNew(h + 2, <<"b", "a">>, "can", ky), [op |-> "newmix", hs |-> <<h + 1, h + 2>>, cm |-> 0, out |-> h]>>
    [] k = "nlg" -> <<Nlg(h, <<"b">>, <<"a">>, ky)>>
    [] k = "fac" -> <<GauNew(h + 1, <<"b", "a">>, "cov", ky), GauNew(h + 2, <<"x10">>, "can", ky), [op |-> "newfac", hs |-> <<h + 1, h + 2>>, out |-> h]>>
KindNames == {"dense", "dense1", "dense3", "denses", "densex", "sparse", "sparse1", "sparse3", "sparses", "sparsex", "gau", "gau1", "mix", "nlg", "fac"}
Discrete(k) == k \notin {"gau", "gau1", "mix", "nlg", "fac"}
PairProg(k, l) ==
  LET both == <<[op |-> "mul", a |-> 1, b |-> 11, alias |-> 0, out |-> 50], [op |-> "div", a |-> 1, b |-> 11, alias |-> 0, out |-> 51],
                [op |-> "cancel", a |-> 1, b |-> 11, out |-> 52]>>
      cmp == IF Discrete(k) \/ (k \in {"gau", "gau1"} /\ l \in {"gau", "gau1"})
             THEN <<[op |-> "eq", a |-> 1, b |-> 11, alias |-> 0, out |-> 0]>>
                  \o (IF Discrete(k) THEN <<[op |-> "kl", a |-> 1, b |-> 11, nrm |-> TRUE, out |-> 0]>> ELSE <<[op |-> "kl", a |-> 1, b |-> 11, out |-> 0]>>)
             ELSE <<>>
  IN Kind(1, k, <<SEED, 1>>) \o Kind(11, l, <<SEED, 2>>) \o both \o cmp
PairPrograms == {PairProg(k, l) : k \in KindNames, l \in KindNames}
\* constructors of composed factors
ComposePrograms ==
  LET ms == <<"gau", "gau1", "mix", "nlg", "fac">>
      all == Kind(1, "gau", <<SEED, 1>>) \o Kind(11, "gau1", <<SEED, 2>>) \o Kind(21, "mix", <<SEED, 3>>) \o Kind(31, "nlg", <<SEED, 4>>) \o Kind(41, "fac", <<SEED, 5>>)
             \o <<GauNew(2, <<"a", "b">>, "cov", <<SEED, 9>>), Nlg(32, <<"b">>, <<"x10">>, <<SEED, 4>>)>>
      hss == SetToSeq({<<>>} \cup {<<i>> : i \in {1, 2, 11, 21, 31, 32, 41}} \cup ({1, 2, 11, 21, 31, 32, 41} \X {1, 2, 11, 21, 31, 32, 41}))
      lin(op, vin, vout, r, c, s) == [op |-> op, out |-> 90, vin |-> vin, vout |-> vout, A |-> [i \in 1 .. r |-> [j \in 1 .. c |-> Quarter(<<SEED>>, i + 3 * j, 6)]], N |-> Spd(<<SEED>>, s)]
                                     @@ (IF op = "newnlg" THEN [m |-> [i \in 1 .. r |-> "1/2"], w |-> "0", byname |-> FALSE] ELSE <<>>)
  IN {all \o FlattenSeq([i \in DOMAIN hss |-> <<[op |-> "newmix", hs |-> hss[i], cm |-> 0, out |-> 100 + i], [op |-> "newnlm", hs |-> hss[i], split |-> FALSE, out |-> 200 + i],
                                               [op |-> "newfac", hs |-> hss[i], out |-> 300 + i]>>])}
     \cup {<<lin(op, vin, vout, r, c, s)>> : op \in {"newlin", "newnlg"}, vin \in {<<"b">>, <<"b", "a">>, <<"a", "a">>}, vout \in {<<"x10">>, <<"x2", "x10">>, <<"b">>, <<"x10", "x10">>},
                                             r \in 1 .. 2, c \in 1 .. 2, s \in 1 .. 2}

Programs == CASE MODE = "enum-raw-gau" -> GauPrograms
              [] MODE = "enum-raw-tab" -> TabPrograms
              [] MODE = "enum-args" -> SetToSeq(ArgPrograms)
              [] MODE = "enum-pairs" -> SetToSeq(PairPrograms) \o SetToSeq(ComposePrograms)
Init == sid = 0 /\ (\E i \in DOMAIN Programs : prog = Programs[i])
Next == sid = 0 /\ sid' = 1 /\ PrintT(ToJson([prog |-> prog])) /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars
=============================================================================
