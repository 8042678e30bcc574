------------------------------ MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Trace validation: every recorded history of the real factor objects must *)
(* be a behaviour of FactorPool.  The verdict is total: an event that is not *)
(* a step of the machine is reported with the clauses it breaks and the      *)
(* trace continues from the observed state.                                  *)
(***************************************************************************)
EXTENDS FactorPool, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, pool

Init == tid \in 1 .. Len(Traces) /\ l = 0 /\ pool = <<>>

Observed(e) == \* the pool as it is observed after the event
  LET ch == [h \in {e.chg[i].h : i \in DOMAIN e.chg} |-> (CHOOSE i \in DOMAIN e.chg : e.chg[i].h = h)]
      \* the recorded pieces of nonlinear Gaussians and templates are not observable: their states are the specified ones
      hidden(p) == p.k \in {"nlg", "nlm", "tpl"}
      new == IF ~ hidden(e.res) THEN e.res
             ELSE LET o == Outcome(e, pool) IN
                  IF o.o = "val" /\ o.v.k = e.res.k THEN o.v ELSE [k |-> "other", v |-> e.res.v]
      upd == [h \in DOMAIN pool |-> IF h \in DOMAIN ch /\ pool[h].k \notin {"nlg", "nlm", "tpl", "other"}
                                     THEN e.chg[ch[h]].p ELSE pool[h]]
  IN IF e.out # 0 /\ e.st = "ok" THEN (e.out :> new) @@ upd ELSE upd

Report(e, f) == IF f = {} THEN TRUE ELSE PrintT(ToJson([fail |-> tid, at |-> l + 1, op |-> e.op, clauses |-> f]))

Step == /\ l < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l + 1] IN
           /\ Report(e, Failures(e, pool))
           /\ pool' = Observed(e)
        /\ l' = l + 1
        /\ UNCHANGED tid

Next == Step
Spec == Init /\ [][Next]_<<tid, l, pool>>
=============================================================================
