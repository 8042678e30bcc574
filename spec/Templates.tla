------------------------------ MODULE Templates ------------------------------
(* Factor templates: see NlgOps.                                             *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Seqs, Outcomes

\* fmt: [keys, vals], sequences of strings
LOCAL Fields(t) == {t[i].f : i \in {j \in DOMAIN t : Has(t[j], "f")}}
CanFormat(t, fmt) == Fields(t) \subseteq Range(fmt.keys)
LOCAL Text(p, fmt) == IF Has(p, "f") THEN fmt.vals[Pos(fmt.keys, p.f)] ELSE p.s
Format(t, fmt) == FoldLeft(LAMBDA a, p : a \o Text(p, fmt), "", t)
CanFormatAll(ts, fmt) == \A i \in DOMAIN ts : CanFormat(ts[i], fmt)
FormatAll(ts, fmt) == [i \in DOMAIN ts |-> Format(ts[i], fmt)]

\* the constructor command with these names
Instance(T, vs, ws) ==
  IF T.par.op \in {"newlin", "newnlg"} THEN [T.par EXCEPT !.vin = vs, !.vout = ws] ELSE [T.par EXCEPT !.v = vs]
\* the names of a new factor ("no": they cannot be made)
NamesFor(T, e) ==
  IF Has(e, "fmt") THEN (IF CanFormatAll(T.tv \o T.tw, e.fmt)
                         THEN [ok |-> TRUE, vs |-> FormatAll(T.tv, e.fmt), ws |-> FormatAll(T.tw, e.fmt)]
                         ELSE [ok |-> FALSE, vs |-> <<>>, ws |-> <<>>])
  ELSE [ok |-> TRUE, vs |-> e.vs, ws |-> e.ws]
=============================================================================
