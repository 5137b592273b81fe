------------------------------ MODULE LfsDesign ------------------------------
(***************************************************************************)
(* How the server serves its requests: one step per file-system call.      *)
(* Several servers work on the same store; between any two calls of one of *)
(* them the others may make calls of theirs, a server may be killed, and a *)
(* call may fail.  TLC explores all of it for the scenarios it is given,   *)
(* and every event is judged by LfsCore (Viol), so that the design is      *)
(* shown to have the properties that the recorded executions are checked   *)
(* for.  The edges of the state graph are also the source of schedules     *)
(* that are replayed on the real server (driver/design.py).                *)
(*                                                                         *)
(* A scenario gives the initial store, the sessions and their requests     *)
(* (packets, in the form of Wire), how many kills and failures there may   *)
(* be, and what the clock may do.  Sessions of phase 2 start when all of   *)
(* phase 1 have ended: they see what is left behind.                       *)
(*                                                                         *)
(* Bug names a flaw in the design; with every one of them TLC has to find  *)
(* a violation (see driver/design.py), which shows that the properties and *)
(* the scenarios are not vacuous.                                          *)
(***************************************************************************)
EXTENDS LfsCore, Json, IOUtils, SequencesExt, TLCExt

Scens == ndJsonDeserialize(IOEnv.SCENS)
Bug == IOEnv.BUG
Monitor == IOEnv.MONITOR = "yes"
Edges == IOEnv.EDGES = "yes"
Watched == IF IOEnv.WATCH = "ALL" THEN {} ELSE {IOEnv.WATCH}

VARIABLES sc,   \* the scenario
          g,    \* the store, the clock and the servers
          h,    \* what LfsCore remembers
          bad   \* the properties violated by the last step

vars == <<sc, g, h, bad>>

\* Requests, as the specification of the wire format reads them
Rqs == [n \in DOMAIN Scens |-> [p \in DOMAIN Scens[n].procs |->
          [k \in DOMAIN Scens[n].procs[p].reqs |->
             LET r == Scens[n].procs[p].reqs[k] IN Classify(r.pk, r.bl, r.bo, r.end)]]]

S0(n) == Scens[n]
Names(n) == DOMAIN S0(n).procs
P(p) == S0(sc).procs[p]
Rq(p) == Rqs[sc][p][g.pr[p].k]
More(gg, p) == gg.pr[p].k <= Len(P(p).reqs)
IdOf(path) == S0(sc).ids[path]
At(t) == "T" \o ToString(t)
Elems(q) == {q[k] : k \in DOMAIN q}

\* the parts of the store
LockRec(path, t, owner, ok) == [path |-> path, t |-> t, owner |-> owner, ok |-> ok]
ObjRec(o, n, ok) == [n |-> n, ok |-> ok, h |-> IF ok THEN o ELSE "other", perm |-> "rw-r--r--"]
FsEvent(gg, s) ==
  [k |-> "fs", s |-> s, objs |-> gg.objs,
   locks |-> [i \in DOMAIN gg.locks |-> LET r == gg.locks[i] IN
                [ok |-> r.ok, path |-> r.path, at |-> At(r.t), t |-> r.t, owner |-> r.owner, perm |-> "rw-r--r--"]],
   temps |-> gg.temps, dirs |-> Empty, perm |-> [file |-> "", dir |-> ""]]
Store(gg) == <<gg.locks, gg.objs, gg.temps>>

RECURSIVE Fold(_, _)
Fold(hb, evs) ==
  IF evs = <<>> THEN hb
  ELSE Fold([h |-> Step(hb.h, Head(evs)), bad |-> hb.bad \cup Viol(hb.h, Head(evs))], Tail(evs))

OpenEvs(gg, p) ==
  <<[k |-> "open", s |-> p, mode |-> P(p).mode, user |-> P(p).user, deny |-> P(p).deny, t |-> gg.clk]>>
ReqEvs(gg, p) ==
  IF gg.pr[p].k <= Len(P(p).reqs)
  THEN <<[k |-> "req", s |-> p, t |-> gg.clk, rq |-> Rqs[sc][p][gg.pr[p].k]]>> ELSE <<>>

Told(gg, p, ans) == IF ans = <<>> THEN gg ELSE [gg EXCEPT !.pr[p].st = ans[1].st]

\* All effects of a step: the new state, what the server did to the store, its
\* answer (a sequence of at most one), and further events.
Commit(p, gg, pre, ans, post) ==
  LET fs == IF Store(gg) # Store(g) THEN <<FsEvent(gg, p)>> ELSE <<>>
      evs == pre \o fs \o ans \o (IF ans # <<>> THEN ReqEvs(gg, p) ELSE <<>>) \o post
      r == Fold([h |-> h, bad |-> {}], evs)
  IN /\ sc' = sc
     /\ g' = Told(gg, p, ans)
     /\ IF Monitor THEN h' = r.h /\ bad' = (IF Watched = {} THEN r.bad ELSE r.bad \cap Watched)
        ELSE h' = h /\ bad' = bad

-----------------------------------------------------------------------------
(* Servers.  pc is the call the server is about to make. *)

Idle == [pc |-> "stdin", k |-> 1, att |-> 0, t |-> 0, ow |-> "", out |-> "", fd |-> <<>>,
         names |-> <<>>, acc |-> <<>>, c |-> 0, st |-> 0]

Set(p, r) == [g EXCEPT !.pr[p] = r]
To(p, pc) == [g EXCEPT !.pr[p].pc = pc]

\* Back to waiting for a request, which is the answer's effect on the server.
Free(gg, p) == [gg EXCEPT !.pr[p] = [Idle EXCEPT !.k = gg.pr[p].k + 1]]
Ans(gg, p, st, args, delim, data, dn, do) ==
  <<[k |-> "res", s |-> p, t |-> gg.clk, st |-> st, args |-> args, delim |-> delim, data |-> data,
     dn |-> dn, do |-> do, nd |-> Len(data)]>>
Fail(gg, p, st) == Ans(gg, p, st, <<>>, TRUE, <<"error\n">>, "6", "")
Details(r) == <<"id=" \o IdOf(r.path) \o "\n", "path=" \o r.path \o "\n", "locked-at=" \o At(r.t) \o "\n",
                "ownername=" \o r.owner \o "\n">>
Spec4(r) == LET i == IdOf(r.path) IN
  <<"lock " \o i \o "\n", "path " \o i \o " " \o r.path \o "\n", "locked-at " \o i \o " " \o At(r.t) \o "\n",
    "ownername " \o i \o " " \o r.owner \o "\n">>
SpecOf(p, r) ==
  IF P(p).mode = "upload"
  THEN Append(Spec4(r), "owner " \o IdOf(r.path) \o " " \o (IF r.owner = P(p).user THEN "ours" ELSE "theirs") \o "\n")
  ELSE Spec4(r)

Temp(p) == IF Bug = "shared temporary name" /\ Rq(p).cmd = "lock" THEN Rq(p).path
           ELSE p \o ToString(g.pr[p].k) \o "." \o ToString(g.pr[p].att)

Reply(p, gg, ans) == Commit(p, Free(gg, p), <<>>, ans, <<>>)

\* A call fails: counted, and announced to LfsCore.
Faulty(gg) == [gg EXCEPT !.nf = @ + 1]
FaultEv(p, call) == <<[k |-> "fault", s |-> p, call |-> call, err |-> "EIO"]>>
MayFail == g.nf < S0(sc).faults

-----------------------------------------------------------------------------
(* The beginning of a request: it is read, up to the first call. *)

Begin(p) ==
  LET q == g.pr[p]
      rq == Rq(p)
      start(pc) == Commit(p, Set(p, [q EXCEPT !.pc = pc, !.att = 1, !.t = g.clk]), <<>>, <<>>, <<>>)
  IN /\ q.pc = "stdin" /\ More(g, p)
     /\ CASE rq.cls # "ok" -> Reply(p, g, Fail(g, p, 400))
          [] rq.cmd \in {"version", "quit"} -> Reply(p, g, Ans(g, p, 200, <<>>, FALSE, <<>>, "0", ""))
          [] rq.cmd = "lock" -> IF P(p).mode = "upload"
                                THEN start(IF Bug = "lock written in place" THEN "lock in place" ELSE "lock creat") ELSE Reply(p, g, Fail(g, p, 400))
          [] rq.cmd = "unlock" -> IF P(p).mode = "upload" THEN start("unlock open") ELSE Reply(p, g, Fail(g, p, 400))
          [] rq.cmd = "list" -> start(IF rq.haspath THEN "path open" ELSE "list opendir")
          [] rq.cmd = "put" -> IF P(p).mode = "upload"
                               THEN start(IF Bug = "object written in place" THEN "put in place" ELSE "put creat") ELSE Reply(p, g, Fail(g, p, 403))
          [] rq.cmd = "get" -> IF P(p).mode = "download" THEN start("get open") ELSE Reply(p, g, Fail(g, p, 403))
          [] rq.cmd = "verify" -> IF P(p).mode = "upload" THEN start("verify stat") ELSE Reply(p, g, Fail(g, p, 403))
          [] rq.cmd = "batch" -> start("batch stat")
          [] OTHER -> Reply(p, g, Fail(g, p, 400))

End(p) ==
  /\ g.pr[p].pc = "stdin" /\ ~More(g, p)
  /\ Commit(p, To(p, "end"), <<>>, <<>>, <<[k |-> "exit", s |-> p, code |-> 0, eof |-> TRUE, left |-> 0, more |-> 0]>>)

-----------------------------------------------------------------------------
(* lock: a temporary file of its own, published with a hard link *)

AddTemp(gg, p) == [gg EXCEPT !.temps = @ \cup {Temp(p)}]
NoTemp(gg, p) == IF Bug = "temporary file kept" THEN gg ELSE [gg EXCEPT !.temps = @ \ {Temp(p)}]

Lock(p, f) == \* f: the call fails
  LET q == g.pr[p]
      path == Rq(p).path
      i == IdOf(path)
      gf == IF f THEN Faulty(g) ELSE g
      pre(call) == IF f THEN FaultEv(p, call) ELSE <<>>
      go(gg, pc, call) == Commit(p, [gg EXCEPT !.pr[p].pc = pc], pre(call), <<>>, <<>>)
      out(gg, w) == [gg EXCEPT !.pr[p].out = w]
      say(gg, ans, call) == Commit(p, Free(gg, p), pre(call), ans, <<>>)
      mine == LockRec(path, q.t, q.ow, TRUE)
      again(gg) == IF q.att < (IF Bug = "one attempt" THEN 1 ELSE 2)
                   THEN [gg EXCEPT !.pr[p] = [@ EXCEPT !.pc = "lock creat", !.att = @ + 1, !.t = gg.clk, !.out = ""]]
                   ELSE gg
  IN CASE q.pc = "lock creat" ->
            IF f THEN go(out(gf, "err"), "lock unlink", "open")
            ELSE IF Temp(p) \in g.temps THEN go(out(gf, "conf"), IF Bug = "shared temporary name" THEN "lock open" ELSE "lock unlink", "open")
            ELSE go(AddTemp(gf, p), "lock write", "open")
       [] q.pc = "lock write" ->
            IF f THEN go(out(gf, "err"), "lock unlink", "write") ELSE go(gf, "lock stat", "write")
       [] q.pc = "lock stat" ->
            go([gf EXCEPT !.pr[p].ow = IF f THEN "unknown" ELSE P(p).user], "lock link", "stat")
       [] q.pc = "lock link" ->
            IF f THEN go(out(gf, "err"), "lock unlink", "link")
            ELSE IF i \in DOMAIN g.locks /\ Bug # "published by renaming"
            THEN go(out(gf, "conf"), "lock unlink", "link")
            ELSE go(out([gf EXCEPT !.locks = Update(@, i, LockRec(path, q.t, P(p).user, TRUE))], "ok"),
                    IF Bug = "details read back" THEN "lock open" ELSE "lock unlink", "link")
       [] q.pc = "lock unlink" ->
            LET g1 == IF f THEN gf ELSE NoTemp(gf, p)
            IN CASE q.out = "ok" -> say(g1, Ans(g1, p, 201, Details(mine), FALSE, <<>>, "0", ""), "unlink")
                 [] q.out = "conf" -> go(g1, "lock open", "unlink")
                 [] OTHER -> say(g1, Fail(g1, p, 500), "unlink")
       [] q.pc = "lock open" ->
            IF f THEN say(gf, Fail(gf, p, 500), "open")
            ELSE IF i \in DOMAIN g.locks
            THEN go([gf EXCEPT !.pr[p].fd = <<g.locks[i]>>], "lock read", "open")
            ELSE IF again(gf) # gf THEN Commit(p, again(gf), pre("open"), <<>>, <<>>)
            ELSE say(gf, Fail(gf, p, 500), "open")
       [] q.pc = "lock read" -> IF f THEN say(gf, Fail(gf, p, 500), "read") ELSE go(gf, "lock read end", "read")
       [] q.pc = "lock read end" ->
            IF f \/ ~q.fd[1].ok THEN say(gf, Fail(gf, p, 500), "read")
            ELSE LET g1 == IF Bug = "details read back" THEN NoTemp(gf, p) ELSE gf
                 IN say(g1, Ans(g1, p, IF q.out = "ok" THEN 201 ELSE 409, Details(q.fd[1]), q.out # "ok",
                          IF q.out = "ok" THEN <<>> ELSE <<"conflict\n">>, "0", ""), "read")
       \* flawed: the lock file itself is created and then filled
       [] q.pc = "lock in place" ->
            IF i \in DOMAIN g.locks THEN go(out(gf, "conf"), "lock open", "open")
            ELSE go([gf EXCEPT !.locks = Update(@, i, LockRec(path, q.t, P(p).user, FALSE)), !.pr[p].ow = P(p).user], "lock fill", "open")
       [] q.pc = "lock fill" ->
            LET g1 == IF i \in DOMAIN g.locks THEN [gf EXCEPT !.locks[i].ok = TRUE] ELSE gf
            IN say(g1, Ans(g1, p, 201, Details(mine), FALSE, <<>>, "0", ""), "write")
       [] OTHER -> FALSE

Unlock(p, f) ==
  LET q == g.pr[p]
      i == Rq(p).id
      gf == IF f THEN Faulty(g) ELSE g
      pre(call) == IF f THEN FaultEv(p, call) ELSE <<>>
      go(gg, pc, call) == Commit(p, [gg EXCEPT !.pr[p].pc = pc], pre(call), <<>>, <<>>)
      say(gg, ans, call) == Commit(p, Free(gg, p), pre(call), ans, <<>>)
      done(gg) == Ans(gg, p, 200, Details(q.fd[1]), FALSE, <<>>, "0", "")
  IN CASE q.pc = "unlock open" ->
            IF f THEN say(gf, Fail(gf, p, 500), "open")
            ELSE IF i \notin DOMAIN g.locks THEN say(gf, Fail(gf, p, 404), "open")
            ELSE go([gf EXCEPT !.pr[p].fd = <<g.locks[i]>>], "unlock read", "open")
       [] q.pc = "unlock read" -> IF f THEN say(gf, Fail(gf, p, 500), "read") ELSE go(gf, "unlock read end", "read")
       [] q.pc = "unlock read end" ->
            IF f \/ ~q.fd[1].ok THEN say(gf, Fail(gf, p, 500), "read") ELSE go(gf, "unlock unlink", "read")
       [] q.pc = "unlock unlink" ->
            IF f THEN say(gf, Fail(gf, p, 500), "unlink")
            ELSE IF i \notin DOMAIN g.locks THEN say(gf, IF Bug = "lost race ignored" THEN done(gf) ELSE Fail(gf, p, 404), "unlink")
            ELSE IF P(p).deny THEN say(gf, Fail(gf, p, 403), "unlink")
            ELSE LET g1 == [gf EXCEPT !.locks = [j \in DOMAIN @ \ {i} |-> @[j]]] IN say(g1, done(g1), "unlink")
       [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* list-lock: the names first, in order, and then one file after the other *)

List(p, f) ==
  LET q == g.pr[p]
      rq == Rq(p)
      gf == IF f THEN Faulty(g) ELSE g
      pre(call) == IF f THEN FaultEv(p, call) ELSE <<>>
      go(gg, pc, call) == Commit(p, [gg EXCEPT !.pr[p].pc = pc], pre(call), <<>>, <<>>)
      say(gg, ans, call) == Commit(p, Free(gg, p), pre(call), ans, <<>>)
      \* after a file: the next one, or the answer
      answer(gg, acc) ==
        LET more == Len(acc) > rq.lim
            page == IF more THEN SubSeq(acc, 1, rq.lim) ELSE acc
            args == IF more /\ Bug # "no cursor" THEN <<"next-cursor=" \o IdOf(acc[rq.lim + 1].path) \o "\n">> ELSE <<>>
        IN Ans(gg, p, 200, args, TRUE, FlattenSeq([k \in DOMAIN page |-> SpecOf(p, page[k])]), "1", "")
      next(gg, names, acc, call) ==
        IF names = <<>> \/ Len(acc) > rq.lim THEN say(gg, answer(gg, acc), call)
        ELSE go([gg EXCEPT !.pr[p].names = names, !.pr[p].acc = acc], "list open", call)
      rest == Tail(q.names)
      keep(r) == ~(rq.hascur /\ HexLess(IdOf(r.path), rq.cur))
  IN CASE q.pc = "list opendir" -> IF f THEN say(gf, Fail(gf, p, 500), "open") ELSE go(gf, "list getdents", "open")
       [] q.pc = "list getdents" ->
            IF f THEN say(gf, Fail(gf, p, 500), "getdents")
            ELSE LET ns == IF Bug = "directory order" THEN SetToSeq(DOMAIN g.locks)
                           ELSE SetToSortSeq(DOMAIN g.locks, HexLess)
                 IN go([gf EXCEPT !.pr[p].names = IF Bug = "directory order" THEN Reverse(SetToSortSeq(DOMAIN g.locks, HexLess)) ELSE ns],
                       "list getdents end", "getdents")
       [] q.pc = "list getdents end" ->
            IF f THEN say(gf, Fail(gf, p, 500), "getdents") ELSE next(gf, q.names, <<>>, "getdents")
       [] q.pc = "list open" ->
            IF f THEN next(gf, rest, q.acc, "open")
            ELSE IF Head(q.names) \notin DOMAIN g.locks
            THEN IF Bug = "stops at a vanished lock" THEN say(gf, answer(gf, q.acc), "open") ELSE next(gf, rest, q.acc, "open")
            ELSE go([gf EXCEPT !.pr[p].fd = <<g.locks[Head(q.names)]>>], "list read", "open")
       [] q.pc = "list read" -> IF f THEN next(gf, rest, q.acc, "read") ELSE go(gf, "list read end", "read")
       [] q.pc = "list read end" ->
            IF f \/ ~q.fd[1].ok THEN next(gf, rest, q.acc, "read")
            ELSE next(gf, rest, IF keep(q.fd[1]) THEN Append(q.acc, q.fd[1]) ELSE q.acc, "read")
       [] OTHER -> FALSE

ListPath(p, f) ==
  LET q == g.pr[p]
      i == IdOf(Rq(p).path)
      gf == IF f THEN Faulty(g) ELSE g
      pre(call) == IF f THEN FaultEv(p, call) ELSE <<>>
      go(gg, pc, call) == Commit(p, [gg EXCEPT !.pr[p].pc = pc], pre(call), <<>>, <<>>)
      say(gg, ans, call) == Commit(p, Free(gg, p), pre(call), ans, <<>>)
  IN CASE q.pc = "path open" ->
            IF f THEN say(gf, Fail(gf, p, 500), "open")
            ELSE IF i \notin DOMAIN g.locks THEN say(gf, Fail(gf, p, 404), "open")
            ELSE go([gf EXCEPT !.pr[p].fd = <<g.locks[i]>>], "path read", "open")
       [] q.pc = "path read" -> IF f THEN say(gf, Fail(gf, p, 500), "read") ELSE go(gf, "path read end", "read")
       [] q.pc = "path read end" ->
            IF f \/ ~q.fd[1].ok THEN say(gf, Fail(gf, p, 500), "read")
            ELSE say(gf, Ans(gf, p, 200, <<>>, TRUE, SpecOf(p, q.fd[1]), "1", ""), "read")
       [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* put-object: a temporary file, checked, and renamed *)

Chunks(p) == P(p).reqs[g.pr[p].k].chunks
Leaf(o) == "leaf " \o o
Top(o) == "top " \o o

PutObject(p, f) ==
  LET q == g.pr[p]
      rq == Rq(p)
      o == rq.oid
      gf == IF f THEN Faulty(g) ELSE g
      pre(call) == IF f THEN FaultEv(p, call) ELSE <<>>
      go(gg, pc, call) == Commit(p, [gg EXCEPT !.pr[p].pc = pc], pre(call), <<>>, <<>>)
      say(gg, ans, call) == Commit(p, Free(gg, p), pre(call), ans, <<>>)
      out(gg, w) == [gg EXCEPT !.pr[p].out = w]
      drop(gg, w, call) == go(out(gg, w), "put unlink", call)
      good == rq.match \/ Bug = "contents not checked"
      written(gg, call) == \* all of the body is in the file
        IF good THEN go(gg, "put mkdir", call) ELSE drop(gg, "bad", call)
      mk(d) == [gf EXCEPT !.dirs = @ \cup {d}]
  IN CASE q.pc = "put creat" ->
            IF f THEN say(gf, Fail(gf, p, 500), "open")
            ELSE IF Chunks(p) = 0 THEN written(AddTemp(gf, p), "open")
            ELSE go(AddTemp(gf, p), "put write", "open")
       [] q.pc = "put write" ->
            IF f THEN drop(gf, "err", "write")
            ELSE IF q.c + 1 < Chunks(p) THEN go([gf EXCEPT !.pr[p].c = @ + 1], "put write", "write")
            ELSE written(gf, "write")
       [] q.pc = "put mkdir" ->
            IF f THEN drop(gf, "err", "mkdir")
            ELSE IF Leaf(o) \in g.dirs THEN go(gf, "put mkdir stat", "mkdir")
            ELSE IF Top(o) \notin g.dirs THEN go(gf, "put mkdir top", "mkdir")
            ELSE go(mk(Leaf(o)), "put stat", "mkdir")
       [] q.pc = "put mkdir top" ->
            IF f THEN drop(gf, "err", "mkdir")
            ELSE IF Top(o) \in g.dirs THEN go(gf, "put mkdir top stat", "mkdir") ELSE go(mk(Top(o)), "put mkdir again", "mkdir")
       [] q.pc = "put mkdir top stat" ->
            IF ~f /\ Top(o) \in g.dirs THEN go(gf, "put mkdir again", "stat") ELSE drop(gf, "err", "stat")
       [] q.pc = "put mkdir again" ->
            IF f THEN drop(gf, "err", "mkdir")
            ELSE IF Leaf(o) \in g.dirs THEN go(gf, "put mkdir stat", "mkdir")
            ELSE go(mk(Leaf(o)), "put stat", "mkdir")
       [] q.pc = "put mkdir stat" ->
            IF ~f /\ Leaf(o) \in g.dirs THEN go(gf, "put stat", "stat") ELSE drop(gf, "err", "stat")
       [] q.pc = "put stat" -> IF f THEN drop(gf, "err", "stat") ELSE go(gf, "put chmod", "stat")
       [] q.pc = "put chmod" -> IF f THEN drop(gf, "err", "chmod") ELSE go(gf, "put rename", "chmod")
       [] q.pc = "put rename" ->
            IF f THEN IF Bug = "failed renaming ignored" THEN say(gf, Ans(gf, p, 200, <<>>, FALSE, <<>>, "0", ""), "rename")
                      ELSE drop(gf, "err", "rename")
            ELSE LET g1 == [gf EXCEPT !.temps = @ \ {Temp(p)}, !.objs = Update(@, o, ObjRec(o, rq.size, rq.match))]
                 IN say(g1, Ans(g1, p, 200, <<>>, FALSE, <<>>, "0", ""), "rename")
       [] q.pc = "put unlink" ->
            LET g1 == IF f THEN gf ELSE NoTemp(gf, p)
            IN say(g1, Fail(g1, p, IF q.out = "bad" THEN 400 ELSE 500), "unlink")
       \* flawed: the object's own file is written, and removed if it is no good
       [] q.pc = "put in place" ->
            go([gf EXCEPT !.objs = Update(@, o, ObjRec(o, "0", FALSE))], "put fill", "open")
       [] q.pc = "put fill" ->
            LET g1 == [gf EXCEPT !.objs = IF rq.match THEN Update(@, o, ObjRec(o, rq.size, TRUE)) ELSE [x \in DOMAIN @ \ {o} |-> @[x]]]
            IN say(g1, IF rq.match THEN Ans(g1, p, 200, <<>>, FALSE, <<>>, "0", "") ELSE Fail(g1, p, 400), "write")
       [] OTHER -> FALSE

(* get-object, verify-object, batch *)
Ask(p, f) ==
  LET q == g.pr[p]
      rq == Rq(p)
      o == rq.oid
      gf == IF f THEN Faulty(g) ELSE g
      pre(call) == IF f THEN FaultEv(p, call) ELSE <<>>
      go(gg, pc, call) == Commit(p, [gg EXCEPT !.pr[p].pc = pc], pre(call), <<>>, <<>>)
      say(gg, ans, call) == Commit(p, Free(gg, p), pre(call), ans, <<>>)
      up == P(p).mode = "upload"
      yes == IF up THEN "noop" ELSE "download"
      no == IF up THEN "upload" ELSE "noop"
      dead(gg) == Commit(p, [gg EXCEPT !.pr[p].pc = "end"], pre("read"), <<>>,
                     <<[k |-> "junk", s |-> p, why |-> "output ends within a response"],
                       [k |-> "exit", s |-> p, code |-> 2, eof |-> FALSE, left |-> 0, more |-> Len(P(p).reqs) - q.k]>>)
  IN CASE q.pc = "get open" ->
            IF f THEN say(gf, Fail(gf, p, 500), "open")
            ELSE IF o \notin DOMAIN g.objs THEN say(gf, Fail(gf, p, 404), "open")
            ELSE go([gf EXCEPT !.pr[p].fd = <<g.objs[o]>>], "get read", "open")
       [] q.pc = "get read" -> IF f THEN dead(gf) ELSE go(gf, "get read end", "read")
       [] q.pc = "get read end" ->
            IF f THEN dead(gf)
            ELSE say(gf, Ans(gf, p, 200, <<"size=" \o q.fd[1].n \o "\n">>, TRUE, <<>>, q.fd[1].n, q.fd[1].h), "read")
       [] q.pc = "verify stat" ->
            say(gf, IF f THEN Fail(gf, p, 500)
                    ELSE IF o \notin DOMAIN g.objs THEN Fail(gf, p, 404)
                    ELSE IF g.objs[o].n = rq.size THEN Ans(gf, p, 200, <<>>, FALSE, <<>>, "0", "") ELSE Fail(gf, p, 409), "stat")
       [] q.pc = "batch stat" ->
            LET it == rq.items[Len(q.acc) + 1]
                has == ~f /\ it.oid \in DOMAIN g.objs
                line == it.oid \o " " \o (IF has THEN g.objs[it.oid].n ELSE it.size) \o " " \o (IF has THEN yes ELSE no) \o "\n"
                acc == Append(q.acc, line)
            IN IF Len(acc) < Len(rq.items) THEN go([gf EXCEPT !.pr[p].acc = acc], "batch stat", "stat")
               ELSE say(gf, Ans(gf, p, 200, <<>>, TRUE, acc, "1", ""), "stat")
       [] OTHER -> FALSE

-----------------------------------------------------------------------------

Alive(p) == g.pr[p].pc \notin {"later", "end", "dead"}
Over(p) == g.pr[p].pc \in {"end", "dead"}

Serve(p, f) == Alive(p) /\ (Lock(p, f) \/ Unlock(p, f) \/ List(p, f) \/ ListPath(p, f) \/ PutObject(p, f) \/ Ask(p, f))
Normal(p) == Begin(p) \/ End(p) \/ Serve(p, FALSE)
Failing(p) == MayFail /\ P(p).faulty /\ Serve(p, TRUE)

Kill(p) ==
  /\ g.nk < S0(sc).kills /\ P(p).killed /\ Alive(p)
  /\ Commit(p, [g EXCEPT !.pr[p] = [Idle EXCEPT !.pc = "dead"], !.nk = @ + 1], <<>>, <<>>, <<[k |-> "kill", s |-> p]>>)

Open(p) ==
  /\ g.pr[p].pc = "later"
  /\ \A x \in Names(sc) : P(x).phase < P(p).phase => Over(x)
  /\ LET g1 == To(p, "stdin") IN Commit(p, g1, OpenEvs(g1, p) \o ReqEvs(g1, p), <<>>, <<>>)

Tick ==
  /\ g.clk < S0(sc).ticks
  /\ g' = [g EXCEPT !.clk = @ + 1] /\ sc' = sc /\ h' = h /\ bad' = {}

G0(n) ==
  [locks |-> [i \in {S0(n).ids[l[1]] : l \in Elems(S0(n).locks)} |->
                LET l == CHOOSE x \in Elems(S0(n).locks) : S0(n).ids[x[1]] = i IN LockRec(l[1], 0 - l[3], l[2], TRUE)],
   objs |-> [o \in {x[1] : x \in Elems(S0(n).objs)} |->
                LET x == CHOOSE y \in Elems(S0(n).objs) : y[1] = o IN ObjRec(o, x[2], TRUE)],
   temps |-> {}, dirs |-> UNION {{Leaf(x[1]), Top(x[1])} : x \in Elems(S0(n).objs)},
   clk |-> 0, nf |-> 0, nk |-> 0,
   pr |-> [p \in Names(n) |-> IF S0(n).procs[p].phase = 1 THEN Idle ELSE [Idle EXCEPT !.pc = "later"]]]

Init ==
  /\ sc \in DOMAIN Scens
  /\ g = G0(sc)
  /\ LET ps == SetToSeq({p \in Names(sc) : P(p).phase = 1})
         evs == <<FsEvent(g, "")>> \o FlattenSeq([k \in DOMAIN ps |-> OpenEvs(g, ps[k])])
                \o FlattenSeq([k \in DOMAIN ps |-> ReqEvs(g, ps[k])])
     IN h = (IF Monitor THEN Fold([h |-> Init0, bad |-> {}], evs).h ELSE Init0)
  /\ bad = {}

Done == (\A p \in Names(sc) : Over(p)) /\ UNCHANGED vars
Next == Tick \/ Done \/ \E p \in Names(sc) : Normal(p) \/ Failing(p) \/ Kill(p) \/ Open(p)
Spec == Init /\ [][Next]_vars

Clean == bad = {}
\* Who moved, and how: for the schedules.
Mover ==
  IF g'.clk # g.clk THEN [p |-> "", a |-> "tick", st |-> 0]
  ELSE LET p == CHOOSE x \in Names(sc) : g'.pr[x] # g.pr[x]
       IN [p |-> p, a |-> IF g'.pr[p].pc = "dead" THEN "kill" ELSE IF g'.nf # g.nf THEN "fault " \o g.pr[p].pc
                          ELSE IF g.pr[p].pc = "later" THEN "open"
                          ELSE IF g'.pr[p].pc = "end" /\ g.pr[p].pc = "stdin" THEN "end" ELSE g.pr[p].pc,
                   st |-> IF g'.pr[p].k # g.pr[p].k THEN g'.pr[p].st ELSE 0]
FP(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
Graph == ~Edges \/ g' = g \/ PrintT(ToJson([n |-> sc, f |-> FP(g), t |-> FP(g'), m |-> Mover]))
Brief == [scenario |-> S0(sc).name, violated |-> bad, servers |-> [p \in Names(sc) |-> g.pr[p].pc], locks |-> g.locks, objs |-> g.objs, temps |-> g.temps]
=============================================================================
