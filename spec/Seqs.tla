-------------------------------- MODULE Seqs --------------------------------
(* Small helpers on sequences that are used as ordered variable scopes.     *)
LOCAL INSTANCE TLC
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt

InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
SameSet(s, t) == Range(s) = Range(t)
Without(s, t) == SelectSeq(s, LAMBDA x : ~ InSeq(x, t))
Within(s, t) == SelectSeq(s, LAMBDA x : InSeq(x, t))
Union(s, t) == s \o Without(t, s)
IProd(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
ISum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* the values of the sequence vals (which belong to names) for the names in sel
Pick(names, vals, sel) == TLCEval([i \in DOMAIN sel |-> vals[Pos(names, sel[i])]])
Const(n, x) == [i \in 1 .. n |-> x]
\* all orders of all subsets of a finite set
Orders(T) == {s \in [1 .. Cardinality(T) -> T] : NoDup(s)}
OrderedSubsets(S) == UNION {Orders(T) : T \in SUBSET S}
=============================================================================
