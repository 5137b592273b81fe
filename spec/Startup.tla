------------------------------ MODULE Startup ------------------------------
(***************************************************************************)
(* Servers that start at the same time on a repository which lacks some or *)
(* all of the LFS directories, call by call: each makes the directories in *)
(* Order; where the parent is missing it makes that and tries again; what  *)
(* exists already it looks at and takes.  A server may be killed anywhere. *)
(*                                                                         *)
(* Robust = FALSE is a server which looks first and then makes what it did *)
(* not see: it fails where another one was quicker (NoneFails).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Servers, Kills, Robust, Export
VARIABLES dirs, at, ph, kills
vars == <<dirs, at, ph, kills>>

Order == <<"objects", "incomplete", "tmp", "locks">>
Subs == {Order[k] : k \in 1 .. 4}
Dirs == Subs \cup {"lfs"}
Whole(d) == "lfs" \in d \/ d = {}

Init ==
  /\ dirs \in {d \in SUBSET Dirs : Whole(d)}
  /\ at = [s \in Servers |-> 1] /\ ph = [s \in Servers |-> "try"] /\ kills = 0

On(s) == at[s] \in 1 .. 4 /\ ph[s] \notin {"dead", "failed"}
To(s, p) == ph' = [ph EXCEPT ![s] = p]
On1(s) == at' = [at EXCEPT ![s] = @ + 1] /\ To(s, "try") \* the next directory

\* one system call of server s: its name, what it is about, and its answer
Edge(s, call, d, ret) ==
  Export => PrintT("EDGE " \o ToJson([from |-> <<dirs, at, ph, kills>>, to |-> <<dirs', at', ph', kills'>>, s |-> s, call |-> call, dir |-> d, ret |-> ret]))

Make(s) ==
  LET d == Order[at[s]]
  IN /\ On(s) /\ ph[s] \in {"try", "again"} /\ (Robust \/ ph[s] = "again" \/ d \notin dirs)
     /\ CASE d \in dirs -> /\ To(s, IF Robust \/ ph[s] = "try" THEN "look" ELSE "failed")
                           /\ UNCHANGED <<dirs, at>> /\ UNCHANGED kills /\ Edge(s, "mkdir", d, "EEXIST")
          [] d \notin dirs /\ "lfs" \in dirs -> /\ On1(s) /\ dirs' = dirs \cup {d} /\ UNCHANGED kills /\ Edge(s, "mkdir", d, "ok")
          [] OTHER -> /\ To(s, "parent") /\ UNCHANGED <<dirs, at>> /\ UNCHANGED kills /\ Edge(s, "mkdir", d, "ENOENT")
Parent(s) ==
  /\ On(s) /\ ph[s] = "parent"
  /\ IF "lfs" \in dirs THEN To(s, IF Robust THEN "lookup" ELSE "failed") /\ UNCHANGED dirs ELSE To(s, "again") /\ dirs' = dirs \cup {"lfs"}
  /\ UNCHANGED <<at, kills>> /\ Edge(s, "mkdir", "lfs", IF "lfs" \in dirs THEN "EEXIST" ELSE "ok")
Look(s) ==
  /\ On(s) /\ ph[s] \in {"look", "lookup"}
  /\ IF ph[s] = "look" THEN On1(s) ELSE To(s, "again") /\ UNCHANGED at
  /\ UNCHANGED <<dirs, kills>> /\ Edge(s, "stat", IF ph[s] = "look" THEN Order[at[s]] ELSE "lfs", "ok")
Kill(s) ==
  /\ On(s) /\ kills < Kills /\ kills' = kills + 1 /\ To(s, "dead") /\ UNCHANGED <<dirs, at>> /\ Edge(s, "kill", "", "")
Next == \E s \in Servers : Make(s) \/ Parent(s) \/ Look(s) \/ Kill(s)
Spec == Init /\ [][Next]_vars /\ \A s \in Servers : WF_vars(Make(s) \/ Parent(s) \/ Look(s))

Up(s) == at[s] = 5
NoneFails == \A s \in Servers : ph[s] # "failed"
Complete == (\E s \in Servers : Up(s)) => dirs = Dirs
Grows == [][dirs \subseteq dirs']_vars
AllUp == <>(\A s \in Servers : Up(s) \/ ph[s] \in {"dead"})
Shown == Export /\ kills = 0 /\ (\A s \in Servers : at[s] = 1 /\ ph[s] = "try") => PrintT("INIT " \o ToJson(<<dirs, at, ph, kills>>))

-----------------------------------------------------------------------------
(* What the real servers did: each was up, that is answered 200 to all it  *)
(* was asked and ended well, or had been killed, and all directories are   *)
(* there in the end if any was up.                                         *)
Fine(r) ==
  /\ \A k \in 1 .. Len(r.servers) : r.servers[k].killed \/ (r.servers[k].code = 0 /\ r.servers[k].answers = r.servers[k].wanted)
  /\ {r.dirs[k] : k \in 1 .. Len(r.dirs)} = Dirs
=============================================================================
