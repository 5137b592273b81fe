------------------------------ MODULE LfsTrace ------------------------------
(***************************************************************************)
(* Judges executions recorded from the real server.  Each line of the      *)
(* trace file is one execution; its events are consumed one by one by the  *)
(* Step of LfsCore, and an event that violates one of the watched          *)
(* properties ends the check.                                              *)
(***************************************************************************)
EXTENDS LfsCore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Watch == IF IOEnv.WATCH = "ALL" THEN {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10",
            "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21", "C22", "C23", "C24"}
         ELSE {IOEnv.WATCH}

VARIABLES tr, i, h, bad

SR == INSTANCE SharedRepo WITH set <- "", um <- ""

Ev(t, k) ==
  LET e == Traces[t].ev[k]
  IN CASE e.k = "req" -> [k |-> "req", s |-> e.s, t |-> e.t, rq |-> Classify(e.pk, e.bl, e.bo, e.end)]
       [] e.k = "fs" -> [k |-> "fs", s |-> e.s, objs |-> e.objs, locks |-> e.locks,
                         temps |-> {e.temps[j] : j \in DOMAIN e.temps}, dirs |-> e.dirs, perm |-> SR!Want(Traces[t].perm[1], Traces[t].perm[2])]
       [] OTHER -> e

Init == tr \in DOMAIN Traces /\ i = 0 /\ h = Init0 /\ bad = {}

Next ==
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET e == Ev(tr, i + 1)
     IN bad' = Viol(h, e) \cap Watch /\ h' = Step(h, e)

Spec == Init /\ [][Next]_<<tr, i, h, bad>>

Clean == bad = {}
Short == [trace |-> Traces[tr].label, number |-> tr, event |-> i, violated |-> bad]
=============================================================================
