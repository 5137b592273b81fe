----------------------------- MODULE RecentRefs -----------------------------
(***************************************************************************)
(* git recent-refs.                                                        *)
(*                                                                         *)
(* By visit: a repository is branches, HEAD (on a branch or detached at a  *)
(* commit) and the log of HEAD, in which a checkout notes what was left.   *)
(* Expected(st) is what is printed.  By date: references with what they    *)
(* point to; SortedOk says which listings are right.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Elems(q) == {q[k] : k \in DOMAIN q}

(* st.branch: function from the existing branches to commits; st.head: [b |-> branch or "", c |-> commit];
   st.log: newest last, [b, c] of what a checkout left, or [noise |-> ...] *)
OnBranch(st) == st.head.b # ""
Unborn(st) == OnBranch(st) /\ st.head.b \notin DOMAIN st.branch \* HEAD is on a branch that is yet to have a commit
At(st) == IF OnBranch(st) THEN st.branch[st.head.b] ELSE st.head.c

RECURSIVE Left(_, _)
Left(st, k) == \* the entries of log[k], log[k-1], ...
  IF k = 0 THEN <<>>
  ELSE LET x == st.log[k]
           out == IF x.k # "checkout" THEN <<>>
                  ELSE IF x.b = "" THEN <<[k |-> "id", v |-> x.c]>>
                  ELSE IF x.b \in DOMAIN st.branch THEN <<[k |-> "ref", v |-> x.b]>> ELSE <<>>
       IN out \o Left(st, k - 1)

(* What HEAD is on; if it is detached the form is left open, and if its branch does not
   exist yet, whether there is such a line. *)
HeadLine(st) == IF Unborn(st) THEN [k |-> "unborn", v |-> st.head.b]
                ELSE IF OnBranch(st) THEN [k |-> "ref", v |-> st.head.b] ELSE [k |-> "head", v |-> ""]
Expected(st) == <<HeadLine(st)>> \o Left(st, Len(st.log))

-----------------------------------------------------------------------------
(* What git does to the repository. *)

Add(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Del(f, x) == [z \in DOMAIN f \ {x} |-> f[z]]
Checked(st) == Append(st.log, [k |-> "checkout", b |-> st.head.b, c |-> IF OnBranch(st) THEN 0 ELSE st.head.c])
Noted(st, what) == Append(st.log, [k |-> what, b |-> "", c |-> 0])

Checkout(st, b) == [st EXCEPT !.log = Checked(st), !.head = [b |-> b, c |-> 0]]
Detach(st, c) == \* not carried out if HEAD would stay as it is
  IF ~OnBranch(st) /\ st.head.c = c THEN st ELSE [st EXCEPT !.log = Checked(st), !.head = [b |-> "", c |-> c]]
Create(st, b) == \* checkout -b: also a checkout
  [st EXCEPT !.branch = Add(@, b, At(st)), !.log = Checked(st), !.head = [b |-> b, c |-> 0]]
Orphan(st, b) == [st EXCEPT !.head = [b |-> b, c |-> 0]] \* checkout --orphan: nothing is noted in the log
Delete(st, b) == [st EXCEPT !.branch = Del(@, b)]
Branch(st, b) == [st EXCEPT !.branch = Add(@, b, At(st))]
Commit(st) ==
  LET c == st.n + 1
  IN [st EXCEPT !.n = c, !.log = Noted(st, "commit"),
                !.branch = IF OnBranch(st) THEN Add(@, st.head.b, c) ELSE @,
                !.head = IF OnBranch(st) THEN @ ELSE [@ EXCEPT !.c = c]]
Rename(st, b) == \* the current branch
  [st EXCEPT !.branch = Add(Del(@, st.head.b), b, At(st)), !.head = [b |-> b, c |-> 0], !.log = Noted(st, "rename")]
Reset(st) == [st EXCEPT !.log = Noted(st, "reset")]
Forget(st) == [st EXCEPT !.log = <<>>]

-----------------------------------------------------------------------------
(* By date.  ref: [name, sym, commit (0 if none), date]. *)

Wanted(refs) == {r \in refs : ~r.sym /\ r.commit}
SortedOk(refs, lines) == \* lines: names
  LET w == Wanted(refs)
      date(nm) == (CHOOSE r \in w : r.name = nm).date
  IN /\ Len(lines) = Cardinality(w)
     /\ Elems(lines) = {r.name : r \in w}
     /\ \A k \in 1 .. Len(lines) - 1 : date(lines[k]) >= date(lines[k + 1])
=============================================================================
