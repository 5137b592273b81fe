------------------------------- MODULE Where -------------------------------
(***************************************************************************)
(* Which repository a server serves, and when it serves at all.            *)
(*                                                                         *)
(* Repositories are B (bare), W (with a working tree) and D (bare, its lfs *)
(* directory a link to another place).  A server is started with a path in *)
(* one of the forms below and an operation, in a directory and with an     *)
(* environment which must not matter.  It is then sent one session.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Repos == {"B", "W", "D"}
\* the forms of a path, and the repository it leads to ("" for none)
Leads == [ absolute |-> "B", slash |-> "B", slashes |-> "B", relative |-> "B", dot |-> "B", dotdot |-> "B", link |-> "B", linklink |-> "B",
           latin1 |-> "B", space |-> "B", dash |-> "B", newline |-> "B",
           tree |-> "W", treerel |-> "W", treedot |-> "W", gitdir |-> "W", gitfile |-> "W", gitfilerel |-> "W", treelink |-> "W",
           disk |-> "D",
           missing |-> "", empty |-> "", emptydir |-> "", file |-> "", dangling |-> "", objects |-> "", subdir |-> "", lfsdir |-> "", badgitfile |-> "", head |-> "" ]
Forms == DOMAIN Leads
Ops == {"upload", "download", "Upload", "DOWNLOAD", "", "uploads", "upload ", " download", "push", "lock", "up", "upload,download", "upload\n", "0"}

\* the sessions, by operation: what is asked, in order
Objs == {1, 2}
Paths == {"p", "q"}
Sessions == [put : Objs, lock : Paths, free : BOOLEAN]

Empty == [objs |-> {}, locks |-> {}]
Init0 == [r \in Repos |-> Empty]

Serves(form, op) == Leads[form] # "" /\ op \in {"upload", "download"}

After(st, form, op, s) == \* the stores after the session
  IF ~Serves(form, op) \/ op = "download" THEN st
  ELSE [st EXCEPT ![Leads[form]] = [objs |-> @.objs \cup {s.put}, locks |-> IF s.free THEN @.locks \ {s.lock} ELSE @.locks \cup {s.lock}]]

\* what is answered: upload: put, lock (and unlock, if asked for), verify 1, verify 2, list locks;
\* download: get 1, get 2, batch of both, list locks
Answers(st, form, op, s) ==
  IF ~Serves(form, op) THEN <<>>
  ELSE LET r == st[Leads[form]]
           z == After(st, form, op, s)[Leads[form]]
           shown(x) == IF x THEN "yes" ELSE "no"
           list(x) == (IF "p" \in x.locks THEN "p" ELSE "") \o (IF "q" \in x.locks THEN "q" ELSE "")
       IN IF op = "upload"
          THEN <<"200", IF s.lock \in r.locks THEN "409" ELSE "201">> \o (IF s.free THEN <<"200">> ELSE <<>>)
               \o <<shown(1 \in z.objs), shown(2 \in z.objs), list(z)>>
          ELSE <<shown(1 \in z.objs), shown(2 \in z.objs), shown(1 \in z.objs) \o " " \o shown(2 \in z.objs), list(z)>>

-----------------------------------------------------------------------------
CONSTANT Export
VARIABLES st, last
NoSession == [form |-> "-", op |-> "-", s |-> 0]
Init == st = Init0 /\ last = NoSession
DesignOps == {"upload", "download", "uploads"}
Next == \E f \in Forms, o \in DesignOps, s \in Sessions :
          /\ st' = After(st, f, o, s)
          /\ last' = [form |-> f, op |-> o, s |-> s]

\* laws of the definitions, on every pair of neighbouring stores
Isolated == [][\A r \in Repos : st'[r] # st[r] => last'.op = "upload" /\ Leads[last'.form] = r]_<<st, last>>
Kept == [][\A r \in Repos : st[r].objs \subseteq st'[r].objs]_<<st, last>>
OneStore == \* all forms of one repository show the same
  \A f, g \in Forms, s \in {[put |-> 1, lock |-> "p", free |-> FALSE]} :
     Leads[f] = Leads[g] => \A o \in Ops : Answers(st, f, o, s) = Answers(st, g, o, s) /\ After(st, f, o, s) = After(st, g, o, s)
Silent == \A f \in Forms, o \in Ops, s \in {[put |-> 1, lock |-> "p", free |-> TRUE]} : (Answers(st, f, o, s) = <<>>) <=> ~Serves(f, o)
View == st
Listed == Export /\ st = Init0 /\ last = NoSession =>
  PrintT("CASE " \o ToJson([leads |-> Leads, ops |-> Ops]))
=============================================================================
