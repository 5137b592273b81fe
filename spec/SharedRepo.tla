----------------------------- MODULE SharedRepo -----------------------------
(***************************************************************************)
(* The permissions that core.sharedRepository and the umask of the process *)
(* give to files and directories.  A mode is three digits 0-7 for owner,   *)
(* group and others.  The setting is the text in the configuration file;   *)
(* "-" is an unset one, "!" a key without a value.                         *)
(*                                                                         *)
(* TLC checks the laws below for every setting and umask and prints them   *)
(* as cases for the real server (driver/families.py, perm_tasks); Want is  *)
(* also what LfsTrace holds against the permissions found there.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Oct == <<"0", "1", "2", "3", "4", "5", "6", "7">>
DigitOf(c) == CHOOSE d \in 0 .. 7 : Oct[d + 1] = c
ModeOf(s) == [k \in 1 .. 3 |-> DigitOf(SubSeq(s, Len(s) - 3 + k, Len(s) - 3 + k))]

True == {"true", "yes", "on", "1", "TRUE", "Yes", "!", "group"}
False == {"-", "false", "no", "off", "0", "FALSE", "umask"}
All == {"all", "world", "everybody"}
IsMode(s) == Len(s) >= 3 /\ \A k \in 1 .. Len(s) : SubSeq(s, k, k) \in {Oct[d] : d \in 1 .. 8}

\* what the setting grants, or <<>> where the umask decides
Grants(set) ==
  CASE set \in True -> <<6, 6, 0>>
    [] set \in All -> <<6, 6, 4>>
    [] set \in False -> <<>>
    [] IsMode(set) -> ModeOf(set)

R(d) == d >= 4
W(d) == (d \div 2) % 2 = 1
X(d) == d % 2 = 1
Clear(u, d) == \* d without the bits of u
  (IF R(d) /\ ~R(u) THEN 4 ELSE 0) + (IF W(d) /\ ~W(u) THEN 2 ELSE 0) + (IF X(d) /\ ~X(u) THEN 1 ELSE 0)
Rw(d) == Clear(1, d)
\* directories: searched by whom may read them
Search(d) == IF R(d) THEN Rw(d) + 1 ELSE Rw(d)

File(set, um) == [k \in 1 .. 3 |-> IF Grants(set) = <<>> THEN Clear(ModeOf(um)[k], 6) ELSE Rw(Grants(set)[k])]
Dir(set, um) == [k \in 1 .. 3 |-> IF Grants(set) = <<>> THEN Clear(ModeOf(um)[k], 7) ELSE Search(Grants(set)[k])]

Text(d) == (IF R(d) THEN "r" ELSE "-") \o (IF W(d) THEN "w" ELSE "-") \o (IF X(d) THEN "x" ELSE "-")
Show(m) == Text(m[1]) \o Text(m[2]) \o Text(m[3])
Want(set, um) == IF um = "" THEN [file |-> "", dir |-> ""] ELSE [file |-> Show(File(set, um)), dir |-> Show(Dir(set, um))]

-----------------------------------------------------------------------------
VARIABLES set, um
Modes == {"0" \o o \o Oct[g] \o Oct[x] : o \in {"6"}, g \in {1, 3, 5, 7}, x \in {1, 3, 5, 7}} \cup {"660", "00664", "0770", "0755"}
Umasks == {Oct[o] \o Oct[g] \o Oct[x] : o \in {1}, g \in 1 .. 8, x \in 1 .. 8}
Init == set \in (True \cup False \cup All \cup Modes) /\ um \in Umasks
Next == UNCHANGED <<set, um>>

Laws ==
  LET f == File(set, um)
      d == Dir(set, um)
  IN /\ f[1] = 6 /\ d[1] = 7
     \* a file is never executable; a directory gives as much as a file
     /\ \A k \in 1 .. 3 : ~X(f[k]) /\ Rw(d[k]) = f[k]
     \* a sharing setting does not depend on the umask, and the others do not depend on the setting
     /\ IF Grants(set) = <<>> THEN f = File("-", um) ELSE f = File(set, "077")
     \* nobody is let in whom neither the setting nor the umask lets in
     /\ set \notin All \cup Modes \cup False => f[3] = 0
     /\ PrintT(<<set, um, Show(f), Show(d)>>)
=============================================================================
