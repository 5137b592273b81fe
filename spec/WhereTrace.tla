----------------------------- MODULE WhereTrace -----------------------------
(***************************************************************************)
(* Judges recorded tours: servers started one after the other on the same  *)
(* three repositories, what each answered, how it ended and what was in    *)
(* the stores afterwards (kind "tour"); and servers started together on    *)
(* one repository (kind "start", see Startup).                             *)
(***************************************************************************)
EXTENDS Where, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, bad
Start == INSTANCE Startup WITH Servers <- {}, Kills <- 0, Robust <- TRUE, dirs <- 0, at <- 0, ph <- 0, kills <- 0

Elems(q) == {q[k] : k \in 1 .. Len(q)}
Same(z, rec) == \A r \in Repos : Elems(rec[r].objs) = z[r].objs /\ Elems(rec[r].locks) = z[r].locks

RECURSIVE Good(_, _, _)
Good(z, steps, k) ==
  IF k > Len(steps) THEN TRUE
  ELSE LET x == steps[k]
           y == After(z, x.form, x.op, x.s)
       IN /\ x.answers = Answers(z, x.form, x.op, x.s)
          /\ IF Serves(x.form, x.op) THEN x.code = 0 ELSE x.code # 0 /\ x.said
          /\ Same(y, x.stores)
          /\ x.elsewhere = <<>>
          /\ Good(y, steps, k + 1)

TInit == i = 0 /\ bad = {} /\ st = 0 /\ last = 0
TNext == i < Len(Runs) /\ i' = i + 1 /\ bad' = (IF (IF Runs[i + 1].kind = "tour" THEN Good(Init0, Runs[i + 1].steps, 1) ELSE Start!Fine(Runs[i + 1])) THEN {} ELSE {"C30"}) /\ UNCHANGED <<st, last>>
TSpec == TInit /\ [][TNext]_<<i, bad, st, last>>
Clean == bad = {}
Short == [event |-> i, violated |-> bad, run |-> IF i \in DOMAIN Runs THEN Runs[i].label ELSE ""]
=============================================================================
