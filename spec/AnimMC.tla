-------------------------------- MODULE AnimMC -------------------------------
(***************************************************************************)
(* Design level check of the film that Drawing specifies: for all graphs with *)
(* at most CLUSTERS clusters and all sequences of at most MESSAGES messages.   *)
(* The drawing is a machine that recolours; the film must be one of its runs.  *)
(***************************************************************************)
EXTENDS Drawing, TLC

CONSTANTS CLUSTERS, MESSAGES

Name(i) == <<"A", "B", "C", "D">>[i]
SepName(i, j) == <<"s", Name(i), Name(j)>>
Graphs == UNION {{[n |-> n, E |-> E] : E \in (SUBSET {p \in (1 .. n) \X (1 .. n) : p[1] < p[2]}) \ {{}}} : n \in 2 .. CLUSTERS}
SepOf(x) == [p \in x.E \cup {<<q[2], q[1]>> : q \in x.E} |-> <<"v">>]
Ids(x) == [i \in 1 .. x.n |-> <<Name(i)>>]
DrawingOf(x) ==
  LET es == SetToSeq(x.E)
      nodes == Ids(x) \o [k \in DOMAIN es |-> SepName(es[k][1], es[k][2])]
      ends == FlattenSeq([k \in DOMAIN es |-> <<<<<<Name(es[k][1])>>, SepName(es[k][1], es[k][2])>>, <<SepName(es[k][1], es[k][2]), <<Name(es[k][2])>>>>>>])
  IN [nodes |-> nodes, labels |-> nodes, ends |-> ends, fill |-> [i \in DOMAIN nodes |-> IF i <= x.n THEN "white" ELSE ""],
      color |-> [i \in DOMAIN ends |-> "black"]]

VARIABLES x, d, msgs, film, step
vars == <<x, d, msgs, film, step>>
Base == DrawingOf(x)
Init == x \in Graphs /\ d = Plain(DrawingOf(x)) /\ msgs = <<>> /\ film = <<>> /\ step = 6
Paint(name, c) == d' = [d EXCEPT !.fill = [k \in DOMAIN d.fill |-> IF Base.nodes[k] = name THEN c ELSE d.fill[k]]]
Line(a, b, c) == d' = [d EXCEPT !.color = [k \in DOMAIN d.color |->
  IF \E n \in Range(Base.nodes) \ Range(Ids(x)) : Range(Base.ends[k]) \in {{n, a}, {n, b}} /\ n \in {n2 \in Range(Base.nodes) : \A y \in {a, b} : \E m \in DOMAIN Base.ends : Range(Base.ends[m]) = {n2, y}}
  THEN c ELSE d.color[k]]]
Cur == msgs[Len(msgs)]
From == Ids(x)[Cur.i]
To == Ids(x)[Cur.j]
Start == /\ step = 6 /\ Len(msgs) < MESSAGES
         /\ \E p \in DOMAIN SepOf(x) : msgs' = Append(msgs, [i |-> p[1], j |-> p[2]])
         /\ step' = 0 /\ UNCHANGED <<x, d, film>>
Frame == /\ step < 6 /\ step' = step + 1
         /\ CASE step = 0 -> Paint(From, Hot) [] step = 1 -> Line(From, To, Hot) [] step = 2 -> Paint(To, Hot)
              [] step = 3 -> Paint(From, "white") [] step = 4 -> Line(From, To, "black") [] OTHER -> Paint(To, "white")
         /\ film' = Append(film, d')
         /\ UNCHANGED <<x, msgs>>
Next == Start \/ Frame
Spec == Init /\ [][Next]_vars

DrawnRight == Drawn(Base, Ids(x), SepOf(x))
IsFilm == step = 6 => film = Film(Base, Ids(x), msgs)
Restored == step = 6 => d = Plain(Base)
\* only the elements of the current message are ever lit
OnlyActive == /\ \A k \in DOMAIN d.fill : d.fill[k] = Hot => Base.nodes[k] \in {From, To}
              /\ \A k \in DOMAIN d.color : d.color[k] = Hot => k \in Halves(Base, Ids(x), From, To)
=============================================================================
