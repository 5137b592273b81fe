-------------------------------- MODULE GitAt --------------------------------
(***************************************************************************)
(* git at: which commit it reports, and how.                               *)
(*                                                                         *)
(* A history is a function from commits 1..n to their parents (a sequence  *)
(* of commits), committer dates and messages.  How the walk proceeds is    *)
(* in GitAtWalk.                                                           *)
(* Patterns are regular expressions given as trees, with a semantics of    *)
(* their own (Ends), so that what matches does not depend on a regular     *)
(* expression library.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Elems(q) == {q[k] : k \in DOMAIN q}
Last(q) == q[Len(q)]

-----------------------------------------------------------------------------
(* Regular expressions.  A text is a sequence of characters; a position is  *)
(* the number of characters before it.                                      *)

NL == "\n"
Word == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
         "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
         "0","1","2","3","4","5","6","7","8","9","_"}
Space == {" ", "\t", "\n", "\r", "\f"}
IsWord(t, i) == i \in DOMAIN t /\ t[i] \in Word

RECURSIVE Ends(_, _, _), SeqEnds(_, _, _), StarEnds(_, _, _, _)

Ends(r, t, i) == \* where a match of r in t that begins at i may end
  CASE r.k = "lit" -> IF i < Len(t) /\ t[i + 1] = r.c THEN {i + 1} ELSE {}
    [] r.k = "any" -> IF i < Len(t) /\ t[i + 1] # NL THEN {i + 1} ELSE {}
    [] r.k = "one" -> IF i < Len(t) /\ (t[i + 1] \in Elems(r.cs)) # r.neg THEN {i + 1} ELSE {}
    [] r.k = "ws"  -> IF i < Len(t) /\ t[i + 1] \in Space THEN {i + 1} ELSE {}
    [] r.k = "seq" -> SeqEnds(r.rs, t, {i})
    [] r.k = "alt" -> UNION {Ends(x, t, i) : x \in Elems(r.rs)}
    [] r.k = "star" -> StarEnds(r.r, t, {i}, {i})
    [] r.k = "opt" -> {i} \cup Ends(r.r, t, i)
    [] r.k = "bol" -> IF i = 0 THEN {i} ELSE {}
    [] r.k = "bolm" -> IF i = 0 \/ (t[i] = NL /\ i < Len(t)) THEN {i} ELSE {}
    [] r.k = "eol" -> IF i = Len(t) \/ (i = Len(t) - 1 /\ t[Len(t)] = NL) THEN {i} ELSE {}
    [] r.k = "eolm" -> IF i = Len(t) \/ t[i + 1] = NL THEN {i} ELSE {}
    [] r.k = "eos" -> IF i = Len(t) THEN {i} ELSE {}
    [] r.k = "wb"  -> IF IsWord(t, i) # IsWord(t, i + 1) THEN {i} ELSE {}
    [] r.k = "look" -> IF (Ends(r.r, t, i) # {}) # r.neg THEN {i} ELSE {}
    [] r.k = "never" -> {}
SeqEnds(rs, t, is) ==
  IF rs = <<>> THEN is
  ELSE SeqEnds(Tail(rs), t, UNION {Ends(Head(rs), t, i) : i \in is})
StarEnds(r, t, all, new) ==
  IF new = {} THEN all
  ELSE LET x == (UNION {Ends(r, t, i) : i \in new}) \ all IN StarEnds(r, t, all \cup x, x)

Matches(r, t) == \E i \in 0 .. Len(t) : Ends(r, t, i) # {}

-----------------------------------------------------------------------------
(* What is searched (C26). *)

RECURSIVE FirstLine(_)
FirstLine(t) == IF t = <<>> \/ Head(t) = NL THEN <<>> ELSE <<Head(t)>> \o FirstLine(Tail(t))
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Fixup == <<"f","i","x","u","p","!">>
Squash == <<"s","q","u","a","s","h","!">>

Searched(msg, o) == IF o.summary THEN FirstLine(msg) ELSE msg
Considered(msg, o) == ~(o.nofixup /\ (Starts(msg, Fixup) \/ Starts(msg, Squash)))
Hit(msg, pattern, o) == Considered(msg, o) /\ Matches(pattern, Searched(msg, o))

-----------------------------------------------------------------------------
(* What is reported (C25).  c.parents, c.date. *)

None == 0
Newest(c, xs) == {x \in xs : \A y \in xs : c.date[y] <= c.date[x]}

RECURSIVE Reached(_, _, _)
Reached(c, all, new) ==
  IF new = {} THEN all
  ELSE LET x == (UNION {Elems(c.parents[y]) : y \in new}) \ all IN Reached(c, all \cup x, x)
Reach(c, xs) == Reached(c, xs, xs)

Answers(c, hits) == IF hits = {} THEN {None} ELSE Newest(c, hits) \* hits: the commits reached that match

(* Revision expressions: a commit followed by ~n and ^n steps. *)
RECURSIVE Resolve(_, _, _)
Resolve(c, x, ops) ==
  IF ops = <<>> \/ x = None THEN x
  ELSE LET op == Head(ops)
       IN IF op.k = "^"
          THEN Resolve(c, IF op.n = 0 THEN x ELSE IF op.n \in DOMAIN c.parents[x] THEN c.parents[x][op.n] ELSE None, Tail(ops))
          ELSE IF op.n = 0 THEN Resolve(c, x, Tail(ops))
          ELSE Resolve(c, IF c.parents[x] = <<>> THEN None ELSE c.parents[x][1],
                       <<[op EXCEPT !.n = @ - 1]>> \o Tail(ops))
=============================================================================
