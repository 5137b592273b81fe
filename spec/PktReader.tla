------------------------------ MODULE PktReader ------------------------------
(***************************************************************************)
(* The reader of scutiger-core as it works, with its buffer, on every      *)
(* small stream: its results are among those PktLine allows.  The          *)
(* operations of each run are printed and replayed into the real one.      *)
(***************************************************************************)
EXTENDS PktLine, TLC, Json
CONSTANTS Packets, Depth, Bufs, Export

VARIABLES ps, i, len, flush, broken, s, ok, hist
vars == <<ps, i, len, flush, broken, s, ok, hist>>

Kinds == [k : {"d"}, n : 0 .. Max] \cup [k : {"f", "l", "bad", "cut"}, n : {0}]
Streams == UNION {[1 .. n -> Kinds] : n \in 0 .. Packets}

Init ==
  /\ ps \in {x \in Streams : \A j \in 1 .. Len(x) : x[j].k \in {"cut", "bad"} => j = Len(x)}
  /\ i = 1 /\ len = 0 /\ flush = FALSE /\ broken = FALSE /\ s = Fresh /\ ok = TRUE /\ hist = <<>>

Done(op, res) == \* the outcome against the specification
  /\ ok' = (ok /\ Allowed(ps, s, op, res))
  /\ s' = IF Allowed(ps, s, op, res) THEN Then(ps, s, op, res) ELSE s
  /\ hist' = Append(hist, op)
  /\ ps' = ps

RECURSIVE FirstFull(_)
FirstFull(j) == IF At(ps, j).k = "d" /\ At(ps, j).n = 0 THEN FirstFull(j + 1) ELSE j

Min(a, b) == IF a < b THEN a ELSE b

Read(n) ==
  LET op == [o |-> "r", n |-> n]
  IN IF n = 0 THEN Done(op, [r |-> "r", n |-> 0]) /\ UNCHANGED <<i, len, flush, broken>>
     ELSE IF len > 0 THEN Done(op, [r |-> "r", n |-> Min(len, n)]) /\ len' = len - Min(len, n) /\ UNCHANGED <<i, flush, broken>>
     ELSE IF broken THEN Done(op, Bad) /\ UNCHANGED <<i, len, flush, broken>>
     ELSE LET j == FirstFull(i)
              p == At(ps, j)
              got == IF n >= Max THEN p.n ELSE Min(p.n, n)   \* into the caller's buffer, or through our own
          IN /\ Done(op, CASE p.k = "d" -> [r |-> "r", n |-> got]
                           [] p.k \in {"f", "l"} -> [r |-> "r", n |-> 0]
                           [] p.k = "bad" -> Bad [] OTHER -> Eof)
             /\ i' = IF p.k \in {"eof", "bad"} THEN j ELSE j + 1
             /\ len' = IF p.k = "d" THEN p.n - got ELSE 0
             /\ flush' = (p.k = "f") /\ broken' = (p.k = "bad")

ReadPacket(o) ==
  LET p == At(ps, i)
      op == [o |-> o, n |-> 0]
  IN /\ len = 0
     /\ IF broken THEN Done(op, Bad) /\ UNCHANGED <<i, len, flush, broken>>
        ELSE /\ Done(op, CASE p.k = "bad" -> Bad
                           [] p.k = "eof" -> IF o = "i" THEN [r |-> "none", n |-> 0] ELSE Eof
                           [] OTHER -> [r |-> p.k, n |-> p.n])
             /\ i' = IF p.k \in {"eof", "bad"} THEN i ELSE i + 1
             /\ flush' = (p.k = "f") /\ broken' = (p.k = "bad") /\ len' = 0

RECURSIVE SkipFrom(_)
SkipFrom(j) == IF At(ps, j).k \in {"f", "eof", "bad"} THEN j ELSE SkipFrom(j + 1)
Skip ==
  LET op == [o |-> "s", n |-> 0]
      j == SkipFrom(i)
      p == At(ps, j)
  IN IF flush THEN Done(op, [r |-> "skipped", n |-> 0]) /\ len' = 0 /\ UNCHANGED <<i, flush, broken>>
     ELSE IF broken THEN Done(op, Bad) /\ len' = 0 /\ UNCHANGED <<i, flush, broken>>
     ELSE /\ Done(op, CASE p.k = "f" -> [r |-> "skipped", n |-> 0] [] p.k = "bad" -> Bad [] OTHER -> Eof)
          /\ i' = IF p.k = "f" THEN j + 1 ELSE j
          /\ len' = 0 /\ flush' = (p.k = "f") /\ broken' = (p.k = "bad")

Next == \/ \E n \in Bufs : Read(n)
        \/ ReadPacket("p") \/ ReadPacket("i") \/ Skip
Spec == Init /\ [][Next]_vars

Bound == Len(hist) < Depth \/ ((Export => PrintT("CASE " \o ToJson([ps |-> ps, ops |-> hist]))) /\ FALSE)
Conforms == ok
=============================================================================
