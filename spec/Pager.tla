------------------------------- MODULE Pager -------------------------------
(***************************************************************************)
(* How git recent-refs hands its listing over.                             *)
(*                                                                         *)
(* A setting is the text of GIT_PAGER (git), core.pager (core) and PAGER   *)
(* (env), "-" where it is not set.                                         *)
(*                                                                         *)
(* The transition system below is the program, the pipe and the pager.     *)
(* The pager reads as many lines as it wants, at its own pace, is then     *)
(* busy showing them, and ends.  TLC explores it for every setting; Waits  *)
(* = FALSE is the program as it once was: it ended while the pager was     *)
(* still at work, and the terminal was fought over (Handed fails).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Chosen(s) == \* the pager that runs, "" for none
  LET first == CASE s.git # "-" -> s.git [] s.core # "-" -> s.core [] s.env # "-" -> s.env [] OTHER -> "less"
  IN IF ~s.tty \/ first = "cat" THEN "" ELSE first

-----------------------------------------------------------------------------
CONSTANTS Waits, MaxLines, Cap, Export
VARIABLES set, n, want, prog, sent, pipe, pager, got, shown

vars == <<set, n, want, prog, sent, pipe, pager, got, shown>>
All == 99
Texts == {"-", "", "cat", "a", "b"}
Settings == [tty : BOOLEAN, git : Texts, core : Texts, env : Texts]

Init ==
  /\ set \in Settings /\ n \in 1 .. MaxLines /\ want \in (0 .. MaxLines) \cup {All}
  /\ prog = "writes" /\ sent = 0 /\ pipe = 0 /\ got = 0 /\ shown = 0
  /\ pager = IF Chosen(set) = "" THEN "none" ELSE "reads"

Write ==
  /\ prog = "writes" /\ sent < n
  /\ CASE pager = "none" -> shown' = shown + 1 /\ sent' = sent + 1 /\ UNCHANGED <<pipe, prog>>
       [] pager \in {"reads", "busy"} -> pipe < Cap /\ pipe' = pipe + 1 /\ sent' = sent + 1 /\ UNCHANGED <<shown, prog>>
       [] pager = "gone" -> prog' = "broken" /\ UNCHANGED <<shown, pipe, sent>>
  /\ UNCHANGED <<set, n, want, pager, got>>
Finish ==
  /\ prog = "writes" /\ sent = n /\ prog' = IF Waits THEN "waits" ELSE "done"
  /\ UNCHANGED <<set, n, want, sent, pipe, pager, got, shown>>
Done ==
  /\ prog = "waits" /\ pager \in {"none", "gone"} /\ prog' = "done"
  /\ UNCHANGED <<set, n, want, sent, pipe, pager, got, shown>>
Read ==
  /\ pager = "reads" /\ pipe > 0 /\ got < want /\ pipe' = pipe - 1 /\ got' = got + 1
  /\ UNCHANGED <<set, n, want, prog, sent, pager, shown>>
Enough ==
  /\ pager = "reads" /\ (got = want \/ (pipe = 0 /\ prog # "writes")) /\ pager' = "busy" /\ shown' = got
  /\ UNCHANGED <<set, n, want, prog, sent, pipe, got>>
Quit ==
  /\ pager = "busy" /\ pager' = "gone"
  /\ UNCHANGED <<set, n, want, prog, sent, pipe, got, shown>>
Rest == prog \in {"done", "broken"} /\ pager \in {"none", "gone"} /\ UNCHANGED vars

Next == Write \/ Finish \/ Done \/ Read \/ Enough \/ Quit \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Min(a, b) == IF a < b THEN a ELSE b
Handed == \* who ended by itself has handed over everything wanted, and nobody is at the terminal any more
  prog = "done" => pager \in {"none", "gone"} /\ shown = Min(n, IF pager = "none" THEN n ELSE want)
NotCut == prog = "broken" => want < n
Ends == <>(prog \in {"done", "broken"} /\ pager \in {"none", "gone"})
\* the initial states are the cases for the real program (driver/pager.py)
Case == Export /\ n = MaxLines /\ prog = "writes" /\ sent = 0 /\ pager \in {"none", "reads"}
Laws ==
  /\ Case => PrintT("CASE " \o ToJson([set |-> set, want |-> want]))
  /\ ~set.tty => Chosen(set) = ""
  /\ \A k \in {"git", "core", "env"} : Chosen([set EXCEPT ![k] = "cat"]) \in {Chosen(set), ""}
  /\ set.tty /\ set.git = "a" => Chosen(set) = "a"
  /\ Chosen(set) # "" => Chosen(set) \in {set.git, set.core, set.env, "less"}
=============================================================================
