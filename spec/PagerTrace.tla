----------------------------- MODULE PagerTrace -----------------------------
(***************************************************************************)
(* Judges runs of the real git-recent-refs in front of recording pagers.   *)
(* A run: set, the setting; listing, what it prints where no terminal is;  *)
(* want, how many lines the pager takes; who, the pagers that were run;    *)
(* got, the lines it was given; term, what was on the terminal (or pipe);  *)
(* ended, whether the pager had ended when the program did; code.          *)
(***************************************************************************)
EXTENDS Pager, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, bad

Viol(r) ==
  LET p == Chosen(r.set)
      m == IF r.want = All THEN Len(r.listing) ELSE Min(Len(r.listing), r.want)
      fine == IF p = ""
              THEN r.who = <<>> /\ r.term = r.listing /\ r.code = 0
              ELSE /\ r.who = <<p>> /\ r.got = SubSeq(r.listing, 1, m) /\ r.term = r.got
                   /\ r.code = 0 => r.ended
                   /\ m = Len(r.listing) => r.code = 0
  IN IF fine THEN {} ELSE {"C31"}

TInit == i = 0 /\ bad = {} /\ set = 0 /\ n = 0 /\ want = 0 /\ prog = "" /\ sent = 0 /\ pipe = 0 /\ pager = "" /\ got = 0 /\ shown = 0
TNext == i < Len(Runs) /\ i' = i + 1 /\ bad' = Viol(Runs[i + 1]) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<i, bad, vars>>
Clean == bad = {}
Short == [event |-> i, violated |-> bad, run |-> IF i \in DOMAIN Runs THEN Runs[i].label ELSE ""]
=============================================================================
