------------------------------ MODULE Outcomes -------------------------------
(* What a command may do.                                                    *)
LOCAL INSTANCE TLC

Has(r, f) == f \in DOMAIN r
Get(r, f, default) == IF Has(r, f) THEN r[f] ELSE default

\* ------------------------------------------------------------- outcomes
\* val: produces the factor v; num/bool/...: answers the query with v;
\* rej: must be refused (err: the classes that are allowed, {} for any);
\* any: outside of the domain of the specification.
Val(v) == [o |-> "val", v |-> v]
Num(v) == [o |-> "num", v |-> v]
Bool(v) == [o |-> "bool", v |-> v]
Rej(e) == [o |-> "rej", v |-> e]
Free == [o |-> "any"]
\* a certain answer about equality within a tolerance
Negate(o) == IF o.o = "bool" THEN Bool(~ o.v) ELSE o
=============================================================================
