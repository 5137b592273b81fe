------------------------------- MODULE PktLine -------------------------------
(***************************************************************************)
(* pkt-line framing: what a header means, what a reader of a stream may    *)
(* return, and what a writer may emit.                                     *)
(*                                                                         *)
(* A stream is a sequence of packets: data packets [k |-> "d", n |-> size],*)
(* flush "f", delimiter "l", a malformed header "bad", and a packet or     *)
(* header whose end is missing, "cut" (always last).  Payload bytes are    *)
(* not looked at: each result says whether its bytes are the next ones of  *)
(* the payload (good).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Max   \* largest payload of a packet

Digits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
IsDigit(c) == \E i \in 1 .. 16 : Digits[i] = c
Digit(c) == (CHOOSE i \in 1 .. 16 : Digits[i] = c) - 1

(* h: four characters; the value of a header, -1 if it has none *)
Value(h) == IF \A i \in 1 .. 4 : IsDigit(h[i])
            THEN 4096 * Digit(h[1]) + 256 * Digit(h[2]) + 16 * Digit(h[3]) + Digit(h[4]) ELSE -1
OfValue(v) == CASE v = 0 -> [k |-> "f", n |-> 0]
                [] v = 1 -> [k |-> "l", n |-> 0]
                [] v >= 4 /\ v - 4 <= Max -> [k |-> "d", n |-> v - 4]
                [] OTHER -> [k |-> "bad", n |-> 0]
Meaning(h) == OfValue(Value(h))

-----------------------------------------------------------------------------
(* The reader: at packet i, of which rem bytes are left to be returned;     *)
(* whether the last packet taken was a flush; whether framing is lost.      *)

Fresh == [i |-> 1, rem |-> 0, flush |-> FALSE, broken |-> FALSE]

End == [k |-> "eof", n |-> 0]
At(ps, i) == IF i > Len(ps) THEN End ELSE IF ps[i].k = "cut" THEN End ELSE ps[i]

RECURSIVE Avail(_, _)
Avail(ps, i) == IF At(ps, i).k = "d" THEN ps[i].n + Avail(ps, i + 1) ELSE 0
RECURSIVE NextStop(_, _)
NextStop(ps, i) == IF At(ps, i).k = "d" THEN NextStop(ps, i + 1) ELSE i

RECURSIVE Forward(_, _, _)
Forward(ps, s, m) == \* m > 0 bytes further
  IF s.rem >= m THEN [s EXCEPT !.rem = @ - m]
  ELSE Forward(ps, [s EXCEPT !.i = @ + 1, !.rem = ps[s.i].n, !.flush = FALSE], m - s.rem)

Past(ps, s, i) == \* packet i has been taken
  LET p == At(ps, i)
  IN [i |-> IF p.k \in {"eof", "bad"} THEN i ELSE i + 1, rem |-> 0, flush |-> p.k = "f", broken |-> p.k = "bad"]

(* Results are [r |-> kind, n |-> size]; Outcomes(ps, s, op) is the set of   *)
(* pairs <<result, state>> that are allowed.                                 *)
Bad == [r |-> "bad", n |-> 0]
Eof == [r |-> "eof", n |-> 0]

RECURSIVE FlushAt(_, _)
FlushAt(ps, i) == IF At(ps, i).k \in {"f", "eof", "bad"} THEN i ELSE FlushAt(ps, i + 1)

Outcomes(ps, s, op) ==
  CASE op.o = "r" /\ op.n = 0 -> {<<[r |-> "r", n |-> 0], s>>}
    [] op.o # "s" /\ s.broken -> {<<Bad, s>>}
    [] op.o = "r" ->
         LET avail == s.rem + Avail(ps, s.i)
             stop == NextStop(ps, s.i)
         IN IF avail > 0
            THEN {<<[r |-> "r", n |-> m], Forward(ps, s, m)>> : m \in 1 .. (IF op.n < avail THEN op.n ELSE avail)}
            ELSE CASE At(ps, stop).k \in {"f", "l"} -> {<<[r |-> "r", n |-> 0], Past(ps, s, stop)>>}
                   [] At(ps, stop).k = "bad" -> {<<Bad, Past(ps, s, stop)>>}
                   [] OTHER -> {<<Eof, Past(ps, s, stop)>>}
    [] op.o \in {"p", "i"} ->
         LET p == At(ps, s.i)
         IN {<<CASE p.k = "bad" -> Bad
                 [] p.k = "eof" -> IF op.o = "i" THEN [r |-> "none", n |-> 0] ELSE Eof
                 [] OTHER -> [r |-> p.k, n |-> p.n],
               Past(ps, s, s.i)>>}
    [] op.o = "s" ->
         LET at == FlushAt(ps, s.i)
         IN IF s.flush THEN {<<[r |-> "skipped", n |-> 0], [s EXCEPT !.rem = 0]>>}
            ELSE IF s.broken THEN {<<Bad, s>>}
            ELSE {<<CASE At(ps, at).k = "f" -> [r |-> "skipped", n |-> 0]
                      [] At(ps, at).k = "bad" -> Bad [] OTHER -> Eof, Past(ps, s, at)>>}

(* The same without listing every size that may be returned, for judging    *)
(* results that have been seen.                                             *)
Allowed(ps, s, op, res) ==
  IF op.o = "r" /\ op.n > 0 /\ ~s.broken /\ s.rem + Avail(ps, s.i) > 0
  THEN res.r = "r" /\ res.n >= 1 /\ res.n <= op.n /\ res.n <= s.rem + Avail(ps, s.i)
  ELSE \E x \in Outcomes(ps, s, op) : x[1] = res
Then(ps, s, op, res) ==
  IF op.o = "r" /\ op.n > 0 /\ ~s.broken /\ s.rem + Avail(ps, s.i) > 0
  THEN Forward(ps, s, res.n)
  ELSE (CHOOSE x \in Outcomes(ps, s, op) : x[1] = res)[2]

-----------------------------------------------------------------------------
(* The writer: ops with their results, and the packets that came out.       *)

RECURSIVE Emitted(_, _)
Emitted(ops, ps) ==
  IF ops = <<>> THEN ps = <<>>
  ELSE LET op == Head(ops)
       IN CASE op.o \in {"f", "l"} -> op.r = op.o /\ ps # <<>> /\ Head(ps).k = op.o /\ Emitted(Tail(ops), Tail(ps))
            [] op.o = "p" -> IF op.n > Max THEN op.r = "err" /\ Emitted(Tail(ops), ps)
                             ELSE op.r = "p" /\ ps # <<>> /\ Head(ps) = [k |-> "d", n |-> op.n] /\ Emitted(Tail(ops), Tail(ps))
            [] op.o = "w" ->
                 /\ op.r = "w" /\ op.m <= op.n
                 /\ \/ op.m = 0 /\ Emitted(Tail(ops), ps)
                    \/ /\ ps # <<>> /\ Head(ps).k = "d" /\ Head(ps).n <= op.m /\ Head(ps).n <= Max
                       /\ Emitted(<<[op EXCEPT !.m = @ - Head(ps).n]>> \o Tail(ops), Tail(ps))
=============================================================================
