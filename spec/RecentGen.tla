------------------------------ MODULE RecentGen ------------------------------
(***************************************************************************)
(* All histories of up to Depth operations on a small repository.  Each    *)
(* one is printed and replayed with the real git and the real program.     *)
(***************************************************************************)
EXTENDS RecentRefs, TLC, Json
CONSTANTS Names, Depth, Export

VARIABLES st, hist

Start == [branch |-> ("main" :> 2), head |-> [b |-> "main", c |-> 0], log |-> <<>>, n |-> 2]

Do(a, next) == st' = next /\ hist' = Append(hist, a)
B == DOMAIN st.branch
Born == ~Unborn(st)

Next ==
  \/ \E b \in B : Do([a |-> "checkout", b |-> b, c |-> 0], Checkout(st, b))
  \/ \E c \in {1, st.n} : Do([a |-> "detach", b |-> "", c |-> c], Detach(st, c))
  \/ Born /\ \E b \in Names \ B : Do([a |-> "create", b |-> b, c |-> 0], Create(st, b))
  \/ \E b \in B \ {st.head.b} : Do([a |-> "delete", b |-> b, c |-> 0], Delete(st, b))
  \/ Born /\ \E b \in Names \ B : Do([a |-> "branch", b |-> b, c |-> 0], Branch(st, b))
  \/ Do([a |-> "commit", b |-> "", c |-> 0], Commit(st))
  \/ \E b \in Names \ (B \cup {st.head.b}) : Do([a |-> "orphan", b |-> b, c |-> 0], Orphan(st, b))
  \/ OnBranch(st) /\ Born /\ \E b \in Names \ B : Do([a |-> "rename", b |-> b, c |-> 0], Rename(st, b))
  \/ Born /\ Do([a |-> "reset", b |-> "", c |-> 0], Reset(st))
  \/ Do([a |-> "forget", b |-> "", c |-> 0], Forget(st))

Init == st = Start /\ hist = <<>>
Spec == Init /\ [][Next]_<<st, hist>>

(* The states at Depth are not explored further; each is a case to replay. *)
Bound == Len(hist) < Depth \/ ((Export => PrintT("CASE " \o ToJson(hist))) /\ FALSE)

-----------------------------------------------------------------------------
(* What the listing does when the repository changes. *)

E == Expected(st)
Checkouts == Cardinality({k \in DOMAIN st.log : st.log[k].k = "checkout"})
Bounded == Len(E) <= 1 + Checkouts
Exist == \A k \in DOMAIN E : E[k].k = "ref" => E[k].v \in B
act == hist'[Len(hist')].a
Without(q, b) == SelectSeq(q, LAMBDA x : x # [k |-> "ref", v |-> b])

Steps ==
  [][ /\ act \in {"checkout", "detach", "create"} =>
            \* what was left comes to the front of what had been left
            (act # "create" /\ st' # st => Tail(Expected(st')) =
               (IF Unborn(st) THEN <<>> ELSE <<IF OnBranch(st) THEN HeadLine(st) ELSE [k |-> "id", v |-> st.head.c]>>) \o Tail(E))
      /\ act = "delete" => Expected(st') = Without(E, hist'[Len(hist')].b)
      /\ act \in {"commit", "reset"} => Len(Expected(st')) >= Len(E) /\ (Born => Expected(st') = E)
      /\ act = "orphan" => Tail(Expected(st')) = Tail(E)
      /\ act = "forget" => Len(Expected(st')) = 1
    ]_<<st, hist>>
=============================================================================
