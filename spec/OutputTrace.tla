----------------------------- MODULE OutputTrace -----------------------------
(* Judges runs of the real programs whose output was not, or not all, taken. *)
EXTENDS Output, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, bad

TInit == /\ i = 0 /\ bad = {} /\ lines = 0 /\ room = 0 /\ buffer = 0 /\ made = 0 /\ held = 0 /\ sent = 0 /\ prog = ""
TNext == /\ i < Len(Runs) /\ i' = i + 1 /\ UNCHANGED vars
         /\ bad' = (IF Fine(Runs[i + 1]) THEN {} ELSE {"C32"})
TSpec == TInit /\ [][TNext]_<<i, bad, vars>>
Clean == bad = {}
Short == [event |-> i, violated |-> bad, run |-> IF i \in DOMAIN Runs THEN Runs[i].label ELSE ""]
=============================================================================
