------------------------------- MODULE Drawing -------------------------------
(***************************************************************************)
(* The drawing of a graph has a node for every cluster and, between           *)
(* neighbours, a node for the separation set that is connected to both by two  *)
(* lines.  A drawing d is a record: nodes (names), labels, fill (colours of the *)
(* nodes), ends (the two nodes of each line) and color (of the lines).  The     *)
(* film of a sequence of messages has six frames for each.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

\* Halves(d, ids, x, y): the lines that connect the clusters with the names x and y
SepNodes(d, ids, x, y) == {n \in Range(d.nodes) \ Range(ids) :
  {k \in DOMAIN d.ends : n \in Range(d.ends[k])} # {} /\
  UNION {Range(d.ends[k]) : k \in {h \in DOMAIN d.ends : n \in Range(d.ends[h])}} = {n, x, y}}
Halves(d, ids, x, y) == {k \in DOMAIN d.ends : \E n \in SepNodes(d, ids, x, y) : n \in Range(d.ends[k])}
Drawn(d, ids, sep) ==
  /\ Range(ids) \subseteq Range(d.nodes) /\ Len(d.fill) = Len(d.nodes) /\ Len(d.color) = Len(d.ends)
  /\ Len(d.ends) = Cardinality(DOMAIN sep)
  /\ Len(d.nodes) = Len(ids) + (Cardinality(DOMAIN sep) \div 2)
  /\ \A p \in DOMAIN sep : /\ Cardinality(SepNodes(d, ids, ids[p[1]], ids[p[2]])) = 1
                          /\ Cardinality(Halves(d, ids, ids[p[1]], ids[p[2]])) = 2
Hot == "red"
\* frame number k of six for a message from cluster name x to cluster name y
Lit(d, ids, x, y, k) ==
  [fill |-> [n \in DOMAIN d.nodes |-> IF (d.nodes[n] = x /\ k \in 1 .. 3) \/ (d.nodes[n] = y /\ k \in 3 .. 5) THEN Hot ELSE d.fill[n]],
   color |-> [n \in DOMAIN d.ends |-> IF k \in 2 .. 4 /\ n \in Halves(d, ids, x, y) THEN Hot ELSE d.color[n]]]
Plain(d) == [fill |-> d.fill, color |-> d.color]
Film(d, ids, msgs) == FlattenSeq([m \in DOMAIN msgs |-> [k \in 1 .. 6 |-> Lit(d, ids, ids[msgs[m].i], ids[msgs[m].j], k)]])
=============================================================================
