------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* Programs whose output cannot be taken in full.                          *)
(*                                                                         *)
(* A sink takes room cells and no more: a disk or file size limit that is  *)
(* reached, a full device, a reader that goes away.  The program makes its *)
(* output line by line and hands it over directly, at the end of each line *)
(* (Buffer = 1) or whenever so many cells have come together; every write  *)
(* may be taken in part.  TLC explores all of it.  Heeds = FALSE is the    *)
(* program that leaves the result of the last write unlooked at, as one    *)
(* does that lets a buffer go out of scope or ends before emptying it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Heeds, MaxLines, Width, Export
VARIABLES lines, room, buffer, made, held, sent, prog

vars == <<lines, room, buffer, made, held, sent, prog>>
Endless == 99
Whole == lines * Width

Init ==
  /\ lines \in 0 .. MaxLines /\ room \in (0 .. MaxLines * Width) \cup {Endless} /\ buffer \in 1 .. MaxLines * Width
  /\ made = 0 /\ held = 0 /\ sent = 0 /\ prog = "makes"

Make == \* a line, unless there is something to hand over first
  /\ prog = "makes" /\ made < lines /\ held < buffer
  /\ made' = made + 1 /\ held' = held + Width
  /\ UNCHANGED <<lines, room, buffer, sent, prog>>
Hand == \* a write that is taken, perhaps in part
  /\ prog = "makes" /\ held > 0 /\ (held >= buffer \/ made = lines)
  /\ \E n \in 1 .. held : /\ room = Endless \/ sent + n <= room
                          /\ held' = held - n /\ sent' = sent + n
  /\ UNCHANGED <<lines, room, buffer, made, prog>>
Refused ==
  /\ prog = "makes" /\ held > 0 /\ (held >= buffer \/ made = lines) /\ room # Endless /\ sent = room
  /\ IF Heeds \/ made < lines THEN prog' = "failed" ELSE prog' = "done"
  /\ UNCHANGED <<lines, room, buffer, made, held, sent>>
Finish ==
  /\ prog = "makes" /\ made = lines /\ held = 0 /\ prog' = "done"
  /\ UNCHANGED <<lines, room, buffer, made, held, sent>>
Rest == prog # "makes" /\ UNCHANGED vars

Next == Make \/ Hand \/ Refused \/ Finish \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Honest == prog = "done" => sent = Whole
NoFuss == prog = "failed" => room < Whole
Beginning == sent <= Whole /\ (room = Endless \/ sent <= room)
Ends == <>(prog # "makes")

-----------------------------------------------------------------------------
(* A run of a real program: want, the output cell by cell (64 bytes, and   *)
(* the last one shorter); got, what surely arrived; size, the length of    *)
(* want in bytes, and most, how many bytes the sink can have taken (-1 if  *)
(* endless); keeps, whether what was taken can be seen in full; code.      *)
Prefix(a, b) == \* of texts
  Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
StartOf(got, want) ==
  \/ got = <<>>
  \/ LET n == Len(got)
     IN n <= Len(want) /\ SubSeq(want, 1, n - 1) = SubSeq(got, 1, n - 1) /\ Prefix(got[n], want[n])
Fine(r) ==
  /\ StartOf(r.got, r.want)
  /\ r.code = 0 => (r.most = -1 \/ r.size <= r.most) /\ (r.keeps => r.got = r.want)
  /\ (r.got = r.want /\ r.size # 0) => r.code = 0
  /\ (r.most = -1 \/ (r.keeps /\ r.size <= r.most)) => r.code = 0 /\ r.got = r.want

(* The cases for the real programs (driver/output.py). *)
Programs == {"visits", "committed", "authored", "many", "at", "show", "get", "locks", "batch", "capabilities"}
Sinks == ({"limit", "limit by signal", "leaves"} \X {"nothing", "a byte", "within a line", "a line", "all but a byte", "all", "more"})
         \cup ({"device", "gone"} \X {"nothing"}) \cup ({"slow"} \X {"more"})
Laws ==
  (Export /\ lines = 0 /\ room = 0 /\ buffer = 1) => \A p \in Programs, s \in Sinks : PrintT("CASE " \o ToJson([prog |-> p, sink |-> s[1], room |-> s[2]]))
=============================================================================
