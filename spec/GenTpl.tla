------------------------------- MODULE GenTpl --------------------------------
(***************************************************************************)
(* Behaviours of FactorPool with factor templates: one template, several     *)
(* factors that are made from it, used and changed in place by the client,   *)
(* compared with directly constructed factors.                               *)
(***************************************************************************)
EXTENDS FactorPool, GenBase, Json, Integers

CONSTANTS SEED, N, D, MODE

VARIABLES sid, prog
vars == <<sid, prog>>

S(x) == [s |-> x]
F(x) == [f |-> x]
Pieces == << <<S("v"), F("i")>>, <<F("i"), S("_"), F("t")>>, <<S("x")>>, <<F("t")>>, <<S("{"), F("i"), S("}")>>,
             <<S("a "), F("key_1"), S("-b"), F("i")>> >>
Fmt(ks, vs) == [keys |-> ks, vals |-> vs]
Fmts == << Fmt(<<"i", "t", "key_1">>, <<"0", "1", "k">>), Fmt(<<"t", "i", "key_1">>, <<"12", "7", "0">>),
           Fmt(<<"key_1", "i", "t", "more">>, <<"x", "a", "b", "5">>), Fmt(<<"t", "key_1", "i">>, <<"v", "0", "00">>) >>
BadFmts == << Fmt(<<"i">>, <<"0">>), Fmt(<<"t">>, <<"0">>), Fmt(<<>>, <<>>), Fmt(<<"key_1", "i">>, <<"0", "1">>), Fmt(<<"i", "t">>, <<"0", "1">>) >>
Kinds == <<"dense", "tensor", "sparse", "gau", "lin", "nlg">>
Names == <<"p", "q r", "v{0}", "x">>

Quarter(ky, i, lim) == RDiv(RSub(RInt(Hash(ky \o <<61, i>>, 2 * lim + 1)), RInt(lim)), "4")
Spd(ky, n) ==
  LET L == TLCEval([i \in 1 .. n |-> [j \in 1 .. n |->
             IF j > i THEN "0" ELSE IF i = j THEN <<"1/2", "1", "3/2", "2">>[1 + Hash(ky \o <<62, i>>, 4)]
             ELSE <<"0", "1/4", "-1/2", "1">>[1 + Hash(ky \o <<63, i, j>>, 4)]]])
  IN MatMul(L, Transp(L, n), n)
Cards(ky, n) == [i \in 1 .. n |-> 2 + Hash(ky \o <<4, i>>, 2)]
Table0(ky, kind, n) ==
  LET c == Cards(ky, n)
      sz == IProd(c)
      t == TLCEval([i \in 1 .. sz |-> IF Hash(ky \o <<7, i>>, 4) = 0 THEN "0" ELSE RDiv(RInt(1 + Hash(ky \o <<8, i>>, 40)), "8")])
      ex == SelectSeq([i \in 1 .. sz |-> i], LAMBDA i : t[i] # "0" \/ Hash(ky \o <<9, i>>, 2) = 0)
  IN [op |-> "newtab", out |-> 6, v |-> <<>>, c |-> c, sp |-> kind = "sparse", df |-> IF kind = "sparse" THEN "0" ELSE "", t |-> t,
      nm |-> [i \in 1 .. n |-> IF kind = "sparse" THEN <<>> ELSE [j \in 1 .. c[i] |-> <<"0", "1", "2">>[j]]],
      ex |-> IF kind = "sparse" THEN ex ELSE <<>>, style |-> IF kind = "tensor" THEN 1 ELSE 0]
Par(ky, kind, n, m) == \* m: the number of conditioning variables
  CASE kind \in {"dense", "tensor", "sparse"} -> Table0(ky, kind, n)
    [] kind = "gau" -> [op |-> "newgau", out |-> 6, v |-> <<>>, form |-> "can", M |-> Spd(ky, n), m |-> TLCEval([i \in 1 .. n |-> Quarter(ky, i, 8)]),
                        w |-> Quarter(ky, 30, 8), lists |-> FALSE]
    [] OTHER ->
       LET base == [op |-> "newlin", out |-> 6, vin |-> <<>>, vout |-> <<>>, N |-> Spd(ky, n - m),
                    A |-> TLCEval([i \in 1 .. (n - m) |-> [j \in 1 .. m |-> Quarter(ky, 70 + 5 * i + j, 6)]])]
       IN IF kind = "lin" THEN base
          ELSE [base EXCEPT !.op = "newnlg"] @@ [m |-> TLCEval([i \in 1 .. (n - m) |-> Quarter(ky, 120 + i, 6)]), w |-> "0", byname |-> FALSE]

Program(kind, ps, x) ==
  LET ky == <<SEED, x, Pos(Kinds, kind)>> \o ps
      n == Len(ps)
      two == kind \in {"lin", "nlg"}
      m == IF two THEN 1 + R(ky, 1, n - 1) ELSE n
      ts == [i \in 1 .. n |-> Pieces[ps[i]]]
      tv == SubSeq(ts, 1, m)
      tw == SubSeq(ts, m + 1, n)
      par == Par(ky, kind, n, m)
      T == [k |-> "tpl", v |-> <<>>, tv |-> tv, tw |-> tw, par |-> par]
      fine == SelectSeq(Fmts, LAMBDA f : NoDup(FormatAll(ts, f)))
      fmt(i) == fine[1 + ((R(ky, 2, 4) + i) % Len(fine))]
      names == SubSeq(Shuffle(ky, 3, Names), 1, n)
      make(h, i) == [op |-> "make", a |-> 1, fmt |-> fmt(i), ints |-> (i % 2) = 0, kw |-> Chance(ky, 90 + h, 1, 2), out |-> h]
      named(h) == [op |-> "make", a |-> 1, vs |-> SubSeq(names, 1, m), ws |-> SubSeq(names, m + 1, n), out |-> h]
      vs(i) == FormatAll(ts, fmt(i))
      direct(h, v) == [Instance(T, SubSeq(v, 1, m), SubSeq(v, m + 1, n)) EXCEPT !.out = h]
      test(i) == [op |-> "fmtb", a |-> 1, fmt |-> (Fmts \o BadFmts)[i], ints |-> (i % 2) = 0, out |-> 0]
      \* ways of using a factor h with the scope v
      tab == kind \in {"dense", "tensor", "sparse"}
      val(j) == IF tab THEN Hash(ky \o <<20, j>>, 2) ELSE Quarter(ky, 20 + j, 8)
      use(h, v, k) ==
        CASE k = 0 -> <<[op |-> "marg", a |-> h, vars |-> Some(ky, 30 + h, v, 1, 2), keep |-> TRUE, out |-> 100 + h]>>
          [] k = 1 -> <<[op |-> "reduce", a |-> h, vars |-> <<v[1]>>, vals |-> <<val(1)>>, alias |-> 0, out |-> 110 + h]>>
          [] k = 2 -> IF kind = "nlg" THEN <<[op |-> "joint", a |-> h, out |-> 120 + h]>> ELSE <<[op |-> "norm", a |-> h, out |-> 120 + h]>>
          [] k = 3 -> IF kind \in {"gau", "lin"} THEN <<[op |-> "par", a |-> h, what |-> IF kind = "gau" THEN "cov" ELSE "prec", out |-> 0]>>
                      ELSE <<[op |-> "copy", a |-> h, out |-> 130 + h]>>
          [] k = 4 -> IF kind = "nlg" THEN <<>> ELSE <<[op |-> "mul", a |-> h, b |-> h, alias |-> 0, out |-> 140 + h]>>
          [] OTHER -> <<[op |-> "poke", a |-> h, out |-> 0]>>
      prior == [op |-> "newgau", out |-> 60, v |-> SubSeq(vs(0), 1, m), form |-> "cov", M |-> Spd(ky, m), m |-> Const(m, "1/2"), w |-> "1/4", lists |-> FALSE]
  IN IF fine = <<>> THEN <<>>
     ELSE <<[op |-> "newtpl", out |-> 1, tv |-> tv, tw |-> tw, par |-> par], test(1 + R(ky, 5, 4)), make(2, 0), make(3, 0), make(4, 1),
            test(5 + R(ky, 6, 5)), named(5), direct(6, vs(0)), [op |-> "eq", a |-> 2, b |-> 6, alias |-> 0, out |-> 0],
            [op |-> "make", a |-> 1, fmt |-> OneOf(ky, 7, BadFmts), ints |-> TRUE, out |-> 7]>>
       \o use(2, vs(0), R(ky, 8, 5)) \o use(4, vs(1), R(ky, 9, 6)) \o use(5, names, R(ky, 10, 6)) \o use(2, vs(0), R(ky, 11, 6))
       \o <<make(8, 0), [op |-> "eq", a |-> 8, b |-> 6, alias |-> 1, out |-> 0], [op |-> "poke", a |-> 3, out |-> 0], make(9, 1), test(1 + R(ky, 12, 9))>>
       \o (IF kind = "nlg" THEN <<prior, [op |-> "mul", a |-> 8, b |-> 60, alias |-> 0, out |-> 61], [op |-> "joint", a |-> 61, out |-> 62],
                                  [op |-> "mul", a |-> 6, b |-> 60, alias |-> 0, out |-> 63], [op |-> "eq", a |-> 61, b |-> 63, alias |-> 0, out |-> 0],
                                  [op |-> "poke", a |-> 61, out |-> 0]>> ELSE <<>>)
       \o <<named(10), direct(11, names), [op |-> "poke", a |-> 10, out |-> 0], make(12, 0), [op |-> "eq", a |-> 12, b |-> 6, alias |-> 0, out |-> 0]>>

Selections(lens) == UNION {{p \in [1 .. n -> DOMAIN Pieces] : NoDup(p)} : n \in lens}
Valid(kind, ps) == kind \in {"lin", "nlg"} => Len(ps) > 1
Programs ==
  CASE MODE = "enum-tpl" -> {Program(x[1], x[2], 0) : x \in {y \in Range(Kinds) \X Selections({1, 2}) : Valid(y[1], y[2])}}
    [] MODE = "enum-tpl3" -> {Program(x[1], x[2], 1) : x \in Range(Kinds) \X Selections({3})}
    [] OTHER -> {}

\* random: N programs with three or four names
Init == \/ MODE # "rand-tpl" /\ sid = 0 /\ prog \in Programs
        \/ MODE = "rand-tpl" /\ sid \in 1 .. N
           /\ prog = LET ky == <<SEED, sid, 9>> IN Program(OneOf(ky, 1, Kinds), Some(ky, 2, [i \in DOMAIN Pieces |-> i], 2, 4), sid)
Next == sid >= 0 /\ sid' = -1 - sid /\ (prog = <<>> \/ PrintT(ToJson([prog |-> prog]))) /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars
=============================================================================
