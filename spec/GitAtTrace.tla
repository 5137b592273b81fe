------------------------------ MODULE GitAtTrace ------------------------------
(***************************************************************************)
(* Judges recorded runs of the real git-at.  Each line: the history, the   *)
(* revision, pattern and options given, and what came out.                 *)
(***************************************************************************)
EXTENDS GitAt, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACES)
Watch == IOEnv.WATCH

VARIABLES i, bad

Chars(m) == m \* messages and outputs are sequences of characters

Outcome(r) == \* [out, code, err] as recorded
  [out |-> r.out, code |-> r.code, err |-> r.err]

Allowed(r) ==
  LET s == Resolve(r.h, r.start, r.ops)
      hits == {x \in Reach(r.h, {s}) : Hit(r.msgs[r.msg[x]], r.pattern, r.opt)}
  IN Answers(r.h, hits)

Found(r, x) == \* x is reported in the way asked for
  IF r.opt.show THEN /\ r.shown = <<"show", r.ids[x]>>
                     \* a negative code stands for git show being killed by a signal
                     /\ IF r.showcode < 0 THEN r.code > 0 ELSE r.code = r.showcode
  ELSE r.out = r.ids[x] \o "\n" /\ r.code = 0 /\ r.shown = <<>>
NotFound(r) == r.out = "" /\ r.code = 1 /\ r.err = ~r.opt.quiet /\ r.shown = <<>>
(* the commit named in the output, if it is one *)
Named(r) == LET z == IF r.opt.show THEN (IF Len(r.shown) = 2 THEN r.shown[2] \o "\n" ELSE "") ELSE r.out
            IN {x \in DOMAIN r.ids : r.ids[x] \o "\n" = z}

Viol(r) ==
  LET s == IF r.kind = "run" THEN Resolve(r.h, r.start, r.ops) ELSE None
  IN CASE r.kind = "run" /\ s # None ->
          LET a == Allowed(r)
              n == Named(r)
              wrong == (n = {} /\ None \notin a) \/ (n # {} /\ n \cap a = {})
          IN (IF wrong THEN {"C25"} \cup (IF r.opt.summary \/ r.opt.nofixup \/ r.probe THEN {"C26"} ELSE {}) ELSE {})
             \cup (IF \E x \in a : IF x = None THEN NotFound(r) ELSE Found(r, x) THEN {} ELSE {"C27"})
       [] r.kind = "run" -> IF r.out = "" /\ r.code # 0 THEN {} ELSE {"C27"}
       [] r.kind = "norev" -> IF r.out = "" /\ r.code # 0 THEN {} ELSE {"C27"}
       [] r.kind = "error" -> IF r.out = "" /\ r.code >= 2 /\ r.err THEN {} ELSE {"C27"}

Init == i = 0 /\ bad = {}
Next == i < Len(Runs) /\ i' = i + 1 /\ bad' = Viol(Runs[i + 1]) \cap {Watch}
Spec == Init /\ [][Next]_<<i, bad>>
Clean == bad = {}
Short == [event |-> i, violated |-> bad, run |-> IF i \in DOMAIN Runs THEN Runs[i].label ELSE ""]
=============================================================================
