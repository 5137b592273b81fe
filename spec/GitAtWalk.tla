------------------------------ MODULE GitAtWalk ------------------------------
(***************************************************************************)
(* The walk of git at on every history of N commits, started at commit N:  *)
(* everything reachable is collected, then taken newest first.  What C25   *)
(* promises follows from how it proceeds.  The initial states are the      *)
(* cases that are replayed into the real program.                          *)
(*                                                                         *)
(* The lazy walk of git log, which takes the newest commit of which a      *)
(* child has been visited, gives the same answers only if no commit is     *)
(* newer than a child of it (LazyAgrees; without Monotone TLC refutes it). *)
(***************************************************************************)
EXTENDS GitAt, TLC
CONSTANTS N, Dates

VARIABLES c, hits, got, todo, ans   \* got: collected; todo: to be collected (while ans = -2), to be taken

vars == <<c, hits, got, todo, ans>>

RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : z <= y IN <<x>> \o Ordered(S \ {x})
Parents == {f \in [1 .. N -> SUBSET (1 .. N - 1)] : \A x \in 1 .. N : \A p \in f[x] : p < x}

Init ==
  /\ \E f \in Parents, d \in [1 .. N -> Dates] :
       c = [parents |-> [x \in 1 .. N |-> Ordered(f[x])], date |-> d]
  /\ hits \in SUBSET (1 .. N)
  /\ got = {} /\ todo = {N} /\ ans = -2

Collect == \* the newest one at hand; in which order makes no difference
  /\ ans = -2 /\ todo # {}
  /\ LET x == CHOOSE y \in Newest(c, todo) : TRUE
     IN got' = got \cup {x} /\ todo' = (todo \cup Elems(c.parents[x])) \ (got \cup {x})
  /\ UNCHANGED <<c, hits, ans>>
Sort == ans = -2 /\ todo = {} /\ ans' = -1 /\ todo' = got /\ UNCHANGED <<c, hits, got>>
Take(x) ==
  /\ ans = -1 /\ x \in Newest(c, todo)
  /\ IF x \in hits THEN ans' = x /\ todo' = todo ELSE ans' = ans /\ todo' = todo \ {x}
  /\ UNCHANGED <<c, hits, got>>
Finish == ans = -1 /\ todo = {} /\ ans' = None /\ UNCHANGED <<c, hits, got, todo>>
Next == Collect \/ Sort \/ Finish \/ \E x \in 1 .. N : Take(x)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Cand == hits \cap Reach(c, {N})
AnswerOk == ans >= 0 => ans \in Answers(c, Cand)
Collected == ans > -2 => got = Reach(c, {N})
Complete == ans >= 0 => ((ans = None) <=> (Cand = {}))

RECURSIVE Lazy(_, _)
Lazy(done, front) ==
  IF front = {} THEN {None}
  ELSE UNION {IF x \in hits THEN {x} ELSE Lazy(done \cup {x}, (front \cup Elems(c.parents[x])) \ (done \cup {x})) : x \in Newest(c, front)}
Monotone == \A x \in 1 .. N : \A p \in Elems(c.parents[x]) : c.date[p] <= c.date[x]
LazyAgrees == ans = -2 /\ got = {} /\ Monotone => Lazy({}, {N}) \subseteq Answers(c, Cand)

Answered == <>(ans >= 0)
=============================================================================
