----------------------------- MODULE RecentTrace -----------------------------
(***************************************************************************)
(* Judges recorded sessions: operations carried out with git, and what     *)
(* git-recent-refs printed after each (kind "visit"), and listings by date *)
(* (kind "date").                                                          *)
(***************************************************************************)
EXTENDS RecentRefs, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, bad

Start(r) == [branch |-> [b \in Elems(r.branches) |-> r.n], head |-> [b |-> r.branches[1], c |-> 0], log |-> <<>>, n |-> r.n]

Apply(st, a) ==
  CASE a.a = "checkout" -> Checkout(st, a.b)
    [] a.a = "detach" -> Detach(st, a.c)
    [] a.a = "create" -> Create(st, a.b)
    [] a.a = "orphan" -> Orphan(st, a.b)
    [] a.a = "delete" -> Delete(st, a.b)
    [] a.a = "branch" -> Branch(st, a.b)
    [] a.a = "commit" -> Commit(st)
    [] a.a = "rename" -> Rename(st, a.b)
    [] a.a = "reset" -> Reset(st)
    [] a.a = "forget" -> Forget(st)
    [] a.a = "look" -> st

Shown(st, o) == \* the listing o is what is expected
  LET e == Expected(st)
  IN /\ o.code = 0
     /\ \/ /\ Len(o.lines) = Len(e)
           /\ Unborn(st) => o.lines[1] = [k |-> "ref", v |-> st.head.b]
           /\ (OnBranch(st) /\ ~Unborn(st)) => o.lines[1] = e[1]
           /\ \A k \in 2 .. Len(e) : o.lines[k] = e[k]
        \/ Unborn(st) /\ o.lines = Tail(e)

RECURSIVE Good(_, _, _)
Good(st, as, k) ==
  IF k > Len(as) THEN TRUE
  ELSE LET s == Apply(st, as[k]) IN (as[k].seen => Shown(s, as[k].out)) /\ Good(s, as, k + 1)

Viol(r) ==
  CASE r.kind = "visit" -> IF Good(Start(r), r.acts, 1) THEN {} ELSE {"C28"}
    [] r.kind = "date" -> IF r.code = 0 /\ SortedOk(Elems(r.refs), r.lines) THEN {} ELSE {"C29"}

Init == i = 0 /\ bad = {}
Next == i < Len(Runs) /\ i' = i + 1 /\ bad' = Viol(Runs[i + 1])
Spec == Init /\ [][Next]_<<i, bad>>
Clean == bad = {}
Short == [event |-> i, violated |-> bad, run |-> IF i \in DOMAIN Runs THEN Runs[i].label ELSE ""]
=============================================================================
