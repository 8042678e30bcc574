------------------------------- MODULE GenBase -------------------------------
(* Deterministic pseudo-random choices for generating behaviours.           *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, BigRat, Seqs

\* key: a sequence of integers; R(key, k, n): the k-th choice from 0..n-1
R(key, k, n) == Hash(Append(key, k), n)
OneOf(key, k, s) == s[R(key, k, Len(s)) + 1]
Chance(key, k, num, den) == R(key, k, den) < num
Shuffle(key, k, s) ==
  LET idx == SortSeq([i \in DOMAIN s |-> i],
                     LAMBDA i, j : LET a == Hash(key \o <<k, i>>, 1000000) b == Hash(key \o <<k, j>>, 1000000) IN
                                   a < b \/ (a = b /\ i < j))
  IN [i \in DOMAIN s |-> s[idx[i]]]
\* a random ordered selection of lo..hi elements
Some(key, k, s, lo, hi) ==
  LET h == IF hi < Len(s) THEN hi ELSE Len(s)
      n == IF lo >= h THEN h ELSE lo + R(key, k, h - lo + 1)
  IN SubSeq(Shuffle(key, k + 1, s), 1, n)
=============================================================================
