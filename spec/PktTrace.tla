------------------------------- MODULE PktTrace -------------------------------
(***************************************************************************)
(* Judges what the real reader and writer did.                             *)
(***************************************************************************)
EXTENDS PktLine, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, bad

Kind(p) == IF p.k = "x" THEN Meaning(p.h) ELSE [k |-> p.k, n |-> p.n]

(* Taking a packet while part of the last one is still to be read has no     *)
(* meaning of its own.                                                       *)
RECURSIVE Reads(_, _, _)
Reads(ps, s, ops) ==
  IF ops = <<>> \/ (s.rem > 0 /\ Head(ops).o \in {"p", "i"}) THEN TRUE
  ELSE LET op == Head(ops)
           res == [r |-> op.r, n |-> op.m]
       IN Allowed(ps, s, op, res) /\ Reads(ps, Then(ps, s, op, res), Tail(ops))

(* What four bytes are taken for as a packet, through a small and through a large buffer. *)
Same(m, o, size) ==
  CASE m.k = "bad" -> o.r = "bad"
    [] m.k \in {"f", "l"} -> o.r = "r" /\ o.n = 0
    [] m.n = 0 -> TRUE   \* what follows it is read
    [] OTHER -> o.r = "r" /\ o.n >= 1 /\ o.n <= m.n /\ o.n <= size
Taken(m, o) ==
  /\ IF m.k = "bad" THEN o[1].r = "bad" ELSE o[1] = [r |-> m.k, n |-> m.n]
  /\ Same(m, o[2], 10) /\ Same(m, o[3], 70000)

Viol(r) ==
  CASE r.kind = "R" -> IF Reads([k \in DOMAIN r.ps |-> Kind(r.ps[k])], Fresh, r.ops) THEN {} ELSE {"C19"}
    [] r.kind = "W" -> IF Emitted(r.ops, r.out) THEN {} ELSE {"C19"}
    [] r.kind = "H" -> IF Taken(Meaning(r.h), r.o) THEN {} ELSE {"C20"}
    \* all values from r.from on
    [] r.kind = "V" -> IF \A k \in DOMAIN r.o : Taken(OfValue(r.from + k - 1), r.o[k]) THEN {} ELSE {"C20"}

Init == i = 0 /\ bad = {}
Next == i < Len(Runs) /\ i' = i + 1 /\ bad' = Viol(Runs[i + 1])
Spec == Init /\ [][Next]_<<i, bad>>
Clean == bad = {}
Short == [event |-> i, violated |-> bad]
=============================================================================
