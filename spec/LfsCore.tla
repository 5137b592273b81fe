------------------------------ MODULE LfsCore ------------------------------
(***************************************************************************)
(* The abstract Git LFS store with its concurrent sessions, and the        *)
(* properties that users rely on.                                          *)
(*                                                                         *)
(* A history is a sequence of events: sessions open and end, requests are  *)
(* made, the store changes, requests are answered, servers are killed.     *)
(* Init and Step(h, e) say what the store and the sessions are after each  *)
(* event; Viol(h, e) is the set of properties that event e violates when   *)
(* it happens after history h.  The same operators judge the design        *)
(* (LfsDesign.tla, all interleavings, crashes and I/O errors) and the      *)
(* executions recorded from the real server (LfsTrace.tla).                *)
(*                                                                         *)
(* Requests are the records of Wire.tla.  The events are:                  *)
(*  open  s mode user deny t     a server has been started                 *)
(*  req   s rq t                 a request is at the server's disposal     *)
(*  fs    s objs locks temps perm  what is stored after a step of s        *)
(*  res   s st args delim data dn do nd t    an answer                     *)
(*  fault s call                 a file-system call of s fails             *)
(*  short s call                 a file-system call of s moves fewer bytes *)
(*                               than asked for, as it may                 *)
(*  deaf  s st args part       the client reads nothing more; what it has of *)
(*                               the answer is complete up to its data     *)
(*  kill  s, exit s code eof left more, hang s, junk s, acc s op area name *)
(***************************************************************************)
EXTENDS Wire, TLC

Empty == [x \in {} |-> 0]
NoReq == [rq |-> Blank, t0 |-> 0, fault |-> FALSE, misled |-> FALSE, solo |-> TRUE, mix |-> FALSE, sure |-> FALSE, unl |-> FALSE, ack |-> {},
          everL |-> {}, contL |-> {}, everO |-> {}, contO |-> {},
          took |-> {}, drop |-> {}, added |-> {}, gone |-> {}, gone2 |-> {}]
NoPages == [on |-> FALSE, next |-> "", acc |-> <<>>, ever |-> {}, cont |-> {}]

Init0 == [objs |-> Empty, locks |-> Empty, temps |-> {}, ses |-> Empty,
          tby |-> Empty, idof |-> Empty, epoch |-> Empty, grants |-> {}, sureheld |-> {},
          acked |-> {}, trouble |-> {}, held |-> {}, maybe |-> {}, exact |-> FALSE,
          gotfs |-> FALSE, bases |-> {}, odd |-> {}]

Update(f, k, v) == (k :> v) @@ f
RecOf(i, r) == [id |-> i, path |-> r.path, at |-> r.at, owner |-> r.owner]
\* The locks there are: a file that is no proper lock record is none of them.
RecsOf(L) == {RecOf(i, L[i]) : i \in {j \in DOMAIN L : L[j].ok}}
ObjsOf(O) == {<<o, O[o].n>> : o \in DOMAIN O}
Epoch(h, i) == IF i \in DOMAIN h.epoch THEN h.epoch[i] ELSE 0
Ids(R) == {r.id : r \in R}
Known(h, s) == s \in DOMAIN h.ses
Busy(h) == {s \in DOMAIN h.ses : h.ses[s].busy}
MinOf(a, b) == IF a < b THEN a ELSE b

\* The request a session is serving.
Cur(h, s) == IF Known(h, s) /\ h.ses[s].busy THEN h.ses[s].q ELSE NoReq
Mode(h, s) == IF Known(h, s) THEN h.ses[s].mode ELSE ""

(* What the store changes in an "fs" event *)
NewObjs(h, e) == DOMAIN e.objs \ DOMAIN h.objs
LostObjs(h, e) == DOMAIN h.objs \ DOMAIN e.objs
AlteredObjs(h, e) == {o \in DOMAIN h.objs \cap DOMAIN e.objs :
                        e.objs[o].n # h.objs[o].n \/ e.objs[o].h # h.objs[o].h}
NewLocks(h, e) == DOMAIN e.locks \ DOMAIN h.locks
LostLocks(h, e) == DOMAIN h.locks \ DOMAIN e.locks
AlteredLocks(h, e) == {i \in DOMAIN h.locks \cap DOMAIN e.locks :
                         RecOf(i, e.locks[i]) # RecOf(i, h.locks[i]) \/ e.locks[i].ok # h.locks[i].ok}
ObjChange(h, e) == NewObjs(h, e) \cup LostObjs(h, e) \cup AlteredObjs(h, e)
LockChange(h, e) == NewLocks(h, e) \cup LostLocks(h, e) \cup AlteredLocks(h, e)

(* The effects a request may have *)
MayAdd(mode, rq, o) == mode = "upload" /\ rq.cmd = "put" /\ rq.cls \in {"ok", "any"} /\ rq.oid = o /\ rq.match
MayDrop(mode, rq, i) == mode = "upload" /\ rq.cmd = "unlock" /\ rq.cls \in {"ok", "any"} /\ rq.id = i

-----------------------------------------------------------------------------
(* The state after an event *)

StepOpen(h, e) ==
  [h EXCEPT !.ses = Update(@, e.s,
     [mode |-> e.mode, user |-> e.user, deny |-> e.deny, busy |-> FALSE, q |-> NoReq,
      nreq |-> 0, nres |-> 0, quit |-> FALSE, broken |-> FALSE, cut |-> FALSE, bads |-> FALSE,
      errAfterBroken |-> FALSE, deaf |-> FALSE, faulted |-> FALSE, exempt |-> FALSE, pg |-> NoPages])]

PathOf(h, i) == IF i \in DOMAIN h.locks THEN h.locks[i].path ELSE ""

Locky(rq) == rq.cmd \in {"lock", "unlock"}
StepReq(h, e) ==
  LET rq == e.rq
      S == h.ses[e.s]
      isUnlock == rq.cmd = "unlock" /\ S.mode = "upload"
      q == [NoReq EXCEPT !.rq = rq, !.t0 = e.t, !.ack = h.acked,
              !.solo = (Busy(h) = {}), !.mix = (\E s \in Busy(h) : Locky(h.ses[s].q.rq)), !.sure = (rq.cmd = "lock" /\ rq.path \in h.sureheld),
              !.unl = \E s \in Busy(h) : h.ses[s].q.rq.cmd = "unlock",
              !.everL = RecsOf(h.locks), !.contL = RecsOf(h.locks),
              !.everO = ObjsOf(h.objs), !.contO = ObjsOf(h.objs)]
      pg == IF rq.cmd # "list" \/ rq.haspath \/ rq.cls # "ok" THEN S.pg
            ELSE IF ~rq.hascur
            THEN [on |-> TRUE, next |-> "", acc |-> <<>>, ever |-> RecsOf(h.locks), cont |-> RecsOf(h.locks)]
            ELSE IF S.pg.on /\ S.pg.next = rq.cur THEN S.pg
            ELSE NoPages
      h1 == [h EXCEPT !.ses[e.s] =
               [S EXCEPT !.busy = TRUE, !.q = q, !.pg = pg, !.nreq = @ + (IF rq.cls \in {"cut", "broken"} THEN 0 ELSE 1),
                         !.cut = @ \/ rq.cls = "cut", !.broken = @ \/ rq.cls = "broken",
                         !.bads = @ \/ rq.cls = "bad"],
               !.ses = [s \in DOMAIN @ |-> IF s # e.s /\ @[s].busy THEN [@[s] EXCEPT !.q.solo = FALSE, !.q.mix = @ \/ Locky(rq)] ELSE @[s]]]
  IN IF ~isUnlock THEN h1
     ELSE \* from now on no path is surely held that this unlock may free
       LET p == {x \in h.sureheld : x \in DOMAIN h.idof /\ h.idof[x] = rq.id}
       IN [h1 EXCEPT !.sureheld = @ \ p,
             !.ses = [s \in DOMAIN @ |->
                        IF s # e.s /\ @[s].busy
                        THEN [@[s] EXCEPT !.q.unl = TRUE,
                                          !.q.sure = @ /\ h1.ses[s].q.rq.path \notin p]
                        ELSE @[s]]]

StepFs(h, e) ==
  LET L == RecsOf(e.locks)
      O == ObjsOf(e.objs)
      newL == NewLocks(h, e)
      lostL == LostLocks(h, e) \cup AlteredLocks(h, e)
      lostP == {h.locks[i].path : i \in LostLocks(h, e)}
      cur == Cur(h, e.s)
      legit == {i \in LostLocks(h, e) : MayDrop(Mode(h, e.s), cur.rq, i)}
      upd(s) ==
        LET S == h.ses[s]
            q == S.q
            mine == s = e.s
            q1 == [q EXCEPT !.everL = @ \cup L, !.contL = @ \cap L,
                            !.everO = @ \cup O, !.contO = @ \cap O,
                            !.gone = @ \cup lostP, !.gone2 = @ \cup (q.gone \cap lostP),
                            !.took = IF mine THEN @ \cup {[rec |-> e.locks[i], id |-> i, ep |-> Epoch(h, i)] : i \in newL} ELSE @,
                            !.drop = IF mine THEN @ \cup {RecOf(i, h.locks[i]) : i \in LostLocks(h, e)} ELSE @,
                            !.added = IF mine THEN @ \cup NewObjs(h, e) ELSE @]
        IN [S EXCEPT !.q = IF S.busy THEN q1 ELSE @,
                     !.pg = IF @.on THEN [@ EXCEPT !.ever = @ \cup L, !.cont = @ \cap L] ELSE @]
  IN [h EXCEPT !.objs = e.objs, !.locks = e.locks, !.temps = e.temps,
        !.tby = [t \in e.temps |-> IF t \in DOMAIN h.tby THEN h.tby[t] ELSE e.s],
        !.ses = [s \in DOMAIN @ |-> upd(s)],
        !.epoch = [i \in legit |-> Epoch(h, i) + 1] @@ @,
        !.held = IF h.gotfs THEN @ ELSE {[id |-> i, path |-> e.locks[i].path] : i \in {j \in DOMAIN e.locks : e.locks[j].ok}},
        !.idof = IF h.gotfs THEN @ ELSE [p \in {e.locks[i].path : i \in {j \in DOMAIN e.locks : e.locks[j].ok}}
                                          |-> CHOOSE i \in DOMAIN e.locks : e.locks[i].ok /\ e.locks[i].path = p],
        !.sureheld = IF h.gotfs THEN @ ELSE {e.locks[i].path : i \in {j \in DOMAIN e.locks : e.locks[j].ok}},
        !.grants = IF h.gotfs THEN @ ELSE {<<i, 0>> : i \in {j \in DOMAIN e.locks : e.locks[j].ok}},
        !.bases = IF h.gotfs THEN @ ELSE e.temps,
        !.odd = IF h.gotfs THEN @ ELSE {i \in DOMAIN e.locks : ~e.locks[i].ok},
        !.gotfs = TRUE]

Listed(e) == Listing(e.data)

StepRes(h, e) ==
  LET S == h.ses[e.s]
      q == S.q
      rq == q.rq
      up == S.mode = "upload"
      d == Det(e.args)
      locked == up /\ rq.cmd = "lock" /\ e.st = 201
      unlocked == up /\ rq.cmd = "unlock" /\ e.st = 200
      \* it may or may not have had its effect, or the effect of another request came later
      unsure == up /\ Locky(rq) /\ IF locked \/ unlocked THEN q.mix ELSE q.fault
      what == IF rq.cmd = "lock" THEN {rq.path, d.id} ELSE {d.path, rq.id}
      paging == rq.cmd = "list" /\ rq.cls = "ok" /\ ~rq.haspath /\ S.pg.on /\ e.st = 200
      nxt == ArgOf(e.args, "next-cursor=")
      ls == Listed(e)
      full == paging /\ ~q.fault /\ ~rq.hascur /\ nxt = "<none>" /\ ls.ok /\ q.solo
      S1 == [S EXCEPT !.busy = FALSE, !.q = NoReq, !.nres = @ + 1,
                      !.quit = @ \/ (rq.cmd = "quit" /\ (rq.cls \in {"ok", "cut"} \/ e.st = 200)),
                      !.errAfterBroken = @ \/ (S.broken /\ e.st >= 400),
                      !.pg = IF ~paging THEN @
                             ELSE IF nxt = "<none>" \/ ~ls.ok THEN NoPages
                             ELSE [@ EXCEPT !.acc = @ \o [k \in DOMAIN ls.l |-> ls.l[k].id], !.next = nxt]]
      listed == {[id |-> ls.l[k].id, path |-> ls.l[k].path] : k \in DOMAIN ls.l}
      \* who asked for the same lock meanwhile can only have it after an unlock
      late == IF ~locked \/ q.unl THEN {}
              ELSE {s \in DOMAIN h.ses \ {e.s} : /\ h.ses[s].busy /\ h.ses[s].mode = "upload" /\ ~h.ses[s].q.unl
                                                /\ h.ses[s].q.rq.cmd = "lock" /\ h.ses[s].q.rq.path = rq.path}
  IN [h EXCEPT !.ses = [s \in DOMAIN @ |-> IF s = e.s THEN S1 ELSE IF s \in late THEN [@[s] EXCEPT !.q.sure = TRUE] ELSE @[s]],
        !.acked = IF up /\ rq.cmd = "put" /\ e.st = 200 THEN @ \cup {rq.oid} ELSE @,
        !.idof = IF locked /\ rq.path \notin DOMAIN @ THEN Update(@, rq.path, d.id) ELSE @,
        !.grants = IF locked THEN @ \cup {<<t.id, t.ep>> : t \in q.took} ELSE @,
        !.sureheld = IF locked /\ ~q.unl THEN @ \cup {rq.path} ELSE @,
        !.held = IF full /\ h.trouble # {} THEN listed
                 ELSE IF locked THEN @ \cup {[id |-> d.id, path |-> rq.path]}
                 ELSE IF unlocked THEN {x \in @ : x.id # rq.id} ELSE @,
        !.maybe = IF full /\ h.trouble # {} THEN {}
                  ELSE IF unsure THEN @ \cup what ELSE @,
        !.exact = (@ \/ full) /\ ~unsure]

StepKill(h, e) ==
  LET q == Cur(h, e.s)
  IN [h EXCEPT !.ses[e.s].busy = FALSE,
        !.trouble = @ \cup {"kill"},
        !.exact = FALSE,
        !.bases = @ \cup {t \in h.temps : h.tby[t] = e.s},
        !.maybe = @ \cup (IF q.rq.cmd \in {"lock", "unlock"} THEN {q.rq.path, q.rq.id} ELSE {})]

Step(h, e) ==
  CASE e.k = "open" -> StepOpen(h, e)
    [] e.k = "req" -> StepReq(h, e)
    [] e.k = "fs" -> StepFs(h, e)
    [] e.k = "res" -> IF Known(h, e.s) THEN StepRes(h, e) ELSE h
    [] e.k = "kill" -> StepKill(h, e)
    [] e.k = "fault" -> [h EXCEPT !.ses[e.s].q.fault = TRUE, !.ses[e.s].q.misled = @ \/ e.err \in {"ENOENT", "EEXIST"}, !.ses[e.s].faulted = TRUE,
                            !.ses[e.s].exempt = @ \/ e.call \in {"unlink", "rmdir"},
                            !.trouble = @ \cup {"fault"}, !.exact = FALSE]
    [] e.k = "deaf" -> [h EXCEPT !.ses[e.s].deaf = TRUE, !.trouble = @ \cup {"deaf"}]
    [] e.k = "short" -> [h EXCEPT !.ses[e.s].faulted = TRUE, !.trouble = @ \cup {"fault"}]
    [] e.k \in {"exit", "hang"} ->
         LET q == Cur(h, e.s)
             lost == h.ses[e.s].deaf /\ Locky(q.rq)
         IN [h EXCEPT !.ses[e.s].busy = FALSE, !.exact = @ /\ ~lost,
               !.maybe = IF lost THEN @ \cup {q.rq.path, q.rq.id} ELSE @]
    [] OTHER -> h

-----------------------------------------------------------------------------
(* The violated properties *)
V(c, p) == IF c THEN {p} ELSE {}

(* Permissions are texts like rwxr-x---; want is compared in the r and w places. *)
RW == {1, 2, 4, 5, 7, 8}
PermOk(p, want) == want = "" \/ \A i \in RW : Ch(p, i) = Ch(want, i)
DirOk(p, want) == want = "" \/ p = want

Granted(h, i) == <<i, Epoch(h, i)>> \in h.grants

ViolFs(h, e) ==
  LET q == Cur(h, e.s)
      rq == q.rq
      mode == Mode(h, e.s)
      S == IF Known(h, e.s) THEN h.ses[e.s] ELSE [cut |-> FALSE, broken |-> FALSE]
      first == ~h.gotfs
      anyChange == ~first /\ (ObjChange(h, e) \cup LockChange(h, e)) # {}
      own == {t.id : t \in q.took}
  IN UNION {
    V(\E o \in DOMAIN e.objs : ~e.objs[o].ok, "C01"),
    V(~first /\ rq.cmd = "put" /\ \E o \in NewObjs(h, e) : ~MayAdd(mode, rq, o), "C02"),
    V(~first /\ LostObjs(h, e) # {} /\ (rq.cmd = "put" \/ LostObjs(h, e) \cap h.acked # {}), "C02"),
    V(~first /\ (LostObjs(h, e) \cup AlteredObjs(h, e)) # {}, "C03"),
    V(rq.cmd = "verify" /\ ~first /\ ObjChange(h, e) # {}, "C06"),
    V(mode = "download" /\ anyChange, "C07"),
    V(~first /\ \E i \in LostLocks(h, e) : Granted(h, i) /\ ~MayDrop(mode, rq, i), "C08"),
    V(~first /\ \E i \in AlteredLocks(h, e) : Granted(h, i), "C08"),
    V(~first /\ rq.cmd = "lock" /\ rq.cls # "any" /\ (((LostLocks(h, e) \cup AlteredLocks(h, e)) \ own) # {}
        \/ \E i \in NewLocks(h, e) : e.locks[i].ok /\ e.locks[i].path # rq.path), "C09"),
    V(~first /\ rq.cmd = "unlock" /\ (LostLocks(h, e) \ {rq.id}) # {}, "C12"),
    V(~first /\ rq.cls # "cut" /\ ( (NewObjs(h, e) # {} /\ rq.cmd # "put")
                   \/ (NewLocks(h, e) # {} /\ rq.cmd # "lock")
                   \/ (LostLocks(h, e) # {} /\ rq.cmd \notin {"unlock", "lock"})), "C15"),
    V(S.cut /\ anyChange, "C16"),
    V(rq.cls = "bad" /\ anyChange, "C17"),
    V(S.broken /\ anyChange, "C20"),
    \* another's temporary file
    V(~first /\ \E t \in h.temps \ e.temps : h.tby[t] # e.s, "C21"),
    V(\/ \E o \in DOMAIN e.objs : ~PermOk(e.objs[o].perm, e.perm.file)
      \/ \E i \in DOMAIN e.locks : ~PermOk(e.locks[i].perm, e.perm.file)
      \/ \E d \in DOMAIN e.dirs : ~DirOk(e.dirs[d], e.perm.dir), "C23") }

-----------------------------------------------------------------------------
OneOf(S) == CHOOSE x \in S : TRUE

ViolPut(h, e, S, q, rq) ==
  IF S.mode # "upload" \/ rq.cmd # "put" THEN {}
  ELSE UNION {
    V(rq.cls = "ok" /\ rq.match /\ ~q.fault /\ e.st # 200, "C02"),
    V(rq.cls = "ok" /\ ~rq.match /\ e.st \in 200 .. 299, "C02"),
    V(rq.cls = "bad" /\ e.st \in 200 .. 299, "C02"),
    V(e.st \in 200 .. 299 /\ (rq.oid \notin DOMAIN h.objs \/ \E o \in {rq.oid} \cap DOMAIN h.objs : ~h.objs[o].ok), "C02"),
    V(e.st \notin 200 .. 299 /\ q.added # {}, "C02"),
    V(q.fault /\ \/ e.st \in 200 .. 299 /\ (rq.oid \notin DOMAIN h.objs \/ \E o \in {rq.oid} \cap DOMAIN h.objs : ~h.objs[o].ok)
                 \/ e.st \notin 200 .. 299 /\ q.added # {}, "C22") }

\* With the uploads answered with success, whatever the store seems to contain.
ViolAcked(h, e, S, q, rq) ==
  IF rq.cls # "ok" \/ q.fault THEN {}
  ELSE V(\/ rq.cmd = "get" /\ S.mode = "download" /\ rq.oid \in q.ack /\ (e.st # 200 \/ e.do # rq.oid)
         \/ rq.cmd = "verify" /\ S.mode = "upload" /\ rq.oid \in q.ack /\ e.st = 404
         \/ /\ rq.cmd = "batch" /\ e.st = 200 /\ Len(e.data) = Len(rq.items)
            /\ \E k \in DOMAIN rq.items :
                  LET w == Split(Chomp(e.data[k]), " ")
                  IN /\ rq.items[k].oid \in q.ack
                     /\ Len(w) = 3 /\ w[3] # (IF S.mode = "upload" THEN "noop" ELSE "download"), "C02")

ViolGet(h, e, S, q, rq) ==
  IF S.mode # "download" \/ rq.cmd # "get" \/ rq.cls # "ok" THEN {}
  ELSE LET cont == {x \in q.contO : x[1] = rq.oid}
           ever == {x \in q.everO : x[1] = rq.oid}
           found == \E x \in ever : /\ e.st = 200 /\ e.args = <<"size=" \o x[2] \o "\n">>
                                    /\ e.delim /\ e.dn = x[2] /\ e.do = rq.oid
           absent == e.st = 404 /\ (e.do # rq.oid \/ e.dn = "0")
       IN IF ~q.fault THEN V(~(found \/ (cont = {} /\ absent)), "C04")
          \* after a failure, too, success means the whole object
          ELSE V(e.st \in 200 .. 299 /\ ~found, "C04") \cup V(e.st \in 200 .. 299 /\ ~found, "C22")

ViolBatch(h, e, S, q, rq) ==
  IF rq.cmd # "batch" \/ rq.cls # "ok" \/ q.fault THEN {}
  ELSE LET yes == IF S.mode = "upload" THEN "noop" ELSE "download"
           no == IF S.mode = "upload" THEN "upload" ELSE "noop"
           line(it) ==
             LET cont == {x \in q.contO : x[1] = it.oid}
                 ever == {x \in q.everO : x[1] = it.oid}
             IN {it.oid \o " " \o x[2] \o " " \o yes \o "\n" : x \in ever}
                \cup (IF cont = {} THEN {it.oid \o " " \o it.size \o " " \o no \o "\n"} ELSE {})
       IN V(\/ e.st # 200 \/ e.args # <<>> \/ ~e.delim
            \/ Len(e.data) # Len(rq.items)
            \/ \E k \in DOMAIN rq.items : e.data[k] \notin line(rq.items[k]), "C05")

ViolVerify(h, e, S, q, rq) ==
  IF S.mode # "upload" \/ rq.cmd # "verify" \/ rq.cls # "ok" \/ q.fault THEN {}
  ELSE LET cont == {x \in q.contO : x[1] = rq.oid}
           ever == {x \in q.everO : x[1] = rq.oid}
           allowed == (IF cont = {} THEN {404} ELSE {})
                      \cup {IF x[2] = rq.size THEN 200 ELSE 409 : x \in ever}
       IN V(e.st \notin allowed, "C06")

ViolMode(h, e, S, q, rq) ==
  UNION {
    V(S.mode = "download" /\ rq.cmd \in {"put", "verify"} /\ rq.cls = "ok" /\ e.st # 403, "C07"),
    V(S.mode = "download" /\ rq.cmd \in {"lock", "unlock"} /\ rq.cls \in {"ok", "bad"} /\ e.st \notin 400 .. 499, "C07"),
    V(S.mode = "upload" /\ rq.cmd = "get" /\ rq.cls = "ok" /\ e.st # 403, "C07"),
    V(S.mode = "upload" /\ e.dn # "0" /\ e.do \in DOMAIN h.objs, "C07") }

\* What asking for one path means is left open where a file that is no lock
\* record may stand in its place (LfsCore cannot tell which path that is).
Unclear(h, rq) == h.odd # {} /\ rq.path \notin DOMAIN h.idof

ViolLock(h, e, S, q, rq) ==
  IF S.mode # "upload" \/ rq.cmd # "lock" \/ rq.cls # "ok" \/ Unclear(h, rq) THEN {}
  ELSE LET d == Det(e.args)
           took == {t \in q.took : t.rec.path = rq.path /\ t.rec.ok}
           conflict == \E r \in q.everL : r = [d EXCEPT !.id = r.id] /\ r.path = rq.path
           heldAtAll == \E r \in q.everL : r.path = rq.path
       IN UNION {
         \* two grants of the same lock, or a grant of what is surely held
         V(e.st = 201 /\ \/ q.sure
                         \/ \E t \in took : <<t.id, t.ep>> \in h.grants
                         \/ took = {} /\ \E r \in q.contL : r.path = rq.path, "C08"),
         V(e.st = 201 /\ took = {}, "C09"),
         V(e.st # 201 /\ took # {} /\ ~q.fault, "C09"),
         V(e.st = 409 /\ ~heldAtAll /\ ~q.fault, "C09"),
         V(e.st = 409 /\ heldAtAll /\ ~(\E r \in q.everL : r.path = rq.path /\ r.path = d.path), "C09"),
         V(e.st \notin {201, 409} /\ ~q.fault /\ rq.path \notin q.gone2, "C09"),
         \* faults
         V(q.fault /\ e.st = 201 /\ took = {}, "C22"),
         \* details
         V(e.st = 409 /\ heldAtAll /\ ~q.fault /\ ~conflict, "C13"),
         V(e.st # 409 /\ ~q.fault /\ \E r \in q.contL : r.path = rq.path, "C13"),
         V(e.st = 201 /\ \/ d.path # rq.path \/ ~IsHash(d.id)
                         \/ (rq.path \in DOMAIN h.idof /\ h.idof[rq.path] # d.id)
                         \/ (rq.path \notin DOMAIN h.idof /\ \E p \in DOMAIN h.idof : h.idof[p] = d.id)
                         \/ (d.owner # S.user /\ ~q.fault)
                         \/ (took # {} /\ ~\E t \in took : /\ t.id = d.id /\ t.rec.at = d.at
                                                         /\ (t.rec.owner = d.owner \/ q.fault)
                                                         /\ t.rec.t \in q.t0 .. e.t), "C13"),
         V(e.st = 409 /\ rq.path \in DOMAIN h.idof /\ h.idof[rq.path] # d.id, "C13") }

ViolUnlock(h, e, S, q, rq) ==
  IF S.mode # "upload" \/ rq.cmd # "unlock" \/ rq.cls # "ok" \/ rq.id \in h.odd THEN {}
  ELSE LET d == Det(e.args)
           dropped == {r \in q.drop : r.id = rq.id}
           cont == {r \in q.contL : r.id = rq.id}
           ever == {r \in q.everL : r.id = rq.id}
       IN UNION {
         V(e.st = 200 /\ dropped = {}, "C12"),
         V(e.st # 200 /\ dropped # {} /\ ~q.fault, "C12"),
         V(e.st = 200 /\ d.id # rq.id, "C12"),
         V(e.st = 404 /\ cont # {} /\ ~q.fault, "C12"),
         V(e.st = 403 /\ ~(S.deny /\ ever # {}) /\ ~q.fault, "C12"),
         V(e.st \notin {200, 403, 404} /\ ~q.fault, "C12"),
         V(S.deny /\ cont # {} /\ e.st # 403, "C12"),
         V(q.fault /\ (e.st = 200) # (dropped # {}), "C22"),
         V(e.st = 200 /\ ever # {} /\ d \notin ever, "C13"),
         V(e.st = 404 /\ cont # {} /\ ~q.fault, "C13") }

ViolList(h, e, S, q, rq) ==
  IF rq.cmd # "list" \/ rq.cls # "ok" \/ q.fault \/ (rq.haspath /\ Unclear(h, rq)) THEN {}
  ELSE IF rq.haspath
  THEN LET cont == {r \in q.contL : r.path = rq.path}
           ever == {r \in q.everL : r.path = rq.path}
           ls == Listed(e)
           one == e.st = 200 /\ e.delim /\ ls.ok /\ Len(ls.l) = 1
       IN UNION {
         V(~( \/ (one /\ \E r \in ever : r.id = ls.l[1].id)
              \/ (e.st = 404 /\ cont = {})), "C11"),
         V(~one /\ cont # {}, "C13"),
         V(one /\ ever # {} /\ ~\E r \in ever : [id |-> ls.l[1].id, path |-> ls.l[1].path, at |-> ls.l[1].at, owner |-> ls.l[1].owner] = r, "C13"),
         V(one /\ \/ S.mode = "download" /\ ls.l[1].mark # ""
                  \/ /\ S.mode = "upload"
                     /\ ~\E r \in q.everL : r.id = ls.l[1].id /\ ls.l[1].mark = (IF r.owner = S.user THEN "ours" ELSE "theirs")
                     /\ \E r \in q.everL : r.id = ls.l[1].id, "C14") }
  ELSE LET ls == Listed(e)
           l == ls.l
           n == Len(l)
           nxt == ArgOf(e.args, "next-cursor=")
           more == nxt # "<none>"
           prev == S.pg.acc
           \* what the page starts behind (exclusive) or at (inclusive)
           after(i) == IF S.pg.on THEN prev = <<>> \/ HexLess(prev[Len(prev)], i) ELSE ~HexLess(i, rq.cur)
           \* a cursor of the client's own making may itself be left out
           beyond(i) == IF S.pg.on \/ ~rq.hascur THEN after(i) ELSE HexLess(rq.cur, i)
           behind(i) == IF n = 0 THEN beyond(i) ELSE HexLess(l[n].id, i)
           ids == [k \in 1 .. n |-> l[k].id]
           wf == \A k \in 1 .. n : IsHash(l[k].id)
           \* what must not be left out: a lock taken between two pages may
           \* fall in front of the cursor
           due == IF S.pg.on /\ rq.hascur THEN S.pg.cont \cap q.contL ELSE q.contL
       IN UNION {
         V(\/ e.st # 200 \/ ~e.delim \/ ~ls.ok \/ ~wf
           \/ n > rq.lim
           \/ (ls.ok /\ wf /\ e.st = 200 /\
               (\/ \E k \in 1 .. n - 1 : ~HexLess(ids[k], ids[k + 1])
                \/ (n > 0 /\ ~after(ids[1]))
                \/ \E k \in 1 .. n : ids[k] \notin Ids(q.everL)
                \/ (more /\ ~\E r \in q.everL : behind(r.id))
                \/ (~more /\ \E r \in (IF n = 0 THEN due ELSE q.contL) : behind(r.id))
                \* what was held all the time since the first page is not left out
                \/ (S.pg.on /\ ~more /\ ~(Ids(S.pg.cont) \subseteq
                      ({prev[k] : k \in DOMAIN prev} \cup {ids[k] : k \in 1 .. n})))
                \/ (n > 0 /\ \E r \in due : beyond(r.id) /\ HexLess(r.id, ids[n])
                                          /\ \A k \in 1 .. n : ids[k] # r.id))), "C11"),
         V(ls.ok /\ \E k \in 1 .. n : /\ l[k].id \in Ids(q.everL)
              /\ [id |-> l[k].id, path |-> l[k].path, at |-> l[k].at, owner |-> l[k].owner] \notin q.everL, "C13"),
         V(ls.ok /\ \E k \in 1 .. n :
              \/ S.mode = "download" /\ l[k].mark # ""
              \/ /\ S.mode = "upload" /\ l[k].id \in Ids(q.everL)
                 /\ ~\E r \in q.everL : /\ r.id = l[k].id
                                        /\ l[k].mark = (IF r.owner = S.user THEN "ours" ELSE "theirs"), "C14") }

(* After a kill or a fault, listing, locking and unlocking have to agree with
   each other and with what had been answered before. *)
ViolBelief(h, e, S, q, rq) ==
  IF h.trouble = {} \/ ~q.solo \/ q.fault \/ rq.cls # "ok" THEN {}
  ELSE LET ls == Listed(e)
           listed == {[id |-> ls.l[k].id, path |-> ls.l[k].path] : k \in DOMAIN ls.l}
           full == rq.cmd = "list" /\ ~rq.haspath /\ ~rq.hascur /\ e.st = 200
                   /\ ArgOf(e.args, "next-cursor=") = "<none>"
           sure == {x \in h.held : x.id \notin h.maybe /\ x.path \notin h.maybe}
           bad == \/ full /\ (~ls.ok \/ ~(sure \subseteq listed)
                              \/ ~(\A x \in listed : x \in h.held \/ x.path \in h.maybe \/ x.id \in h.maybe))
                  \/ rq.cmd = "list" /\ ~rq.haspath /\ e.st # 200
                  \/ rq.cmd = "list" /\ rq.haspath /\ h.exact
                       /\ e.st # (IF \E x \in h.held : x.path = rq.path THEN 200 ELSE 404)
                  \/ rq.cmd = "lock" /\ S.mode = "upload" /\ h.exact
                       /\ e.st # (IF \E x \in h.held : x.path = rq.path THEN 409 ELSE 201)
                  \/ rq.cmd = "unlock" /\ S.mode = "upload" /\ h.exact /\ ~S.deny
                       /\ e.st # (IF \E x \in h.held : x.id = rq.id THEN 200 ELSE 404)
       IN V(bad /\ h.trouble \cap {"kill", "deaf"} # {}, "C10") \cup V(bad /\ "fault" \in h.trouble, "C22")

(* What could not be looked at is not reported as absent, as different or as
   held, unless the failing call itself said so. *)
ViolMisreport(h, e, S, q, rq) ==
  IF ~q.fault \/ q.misled \/ rq.cls # "ok" THEN {}
  ELSE LET up == S.mode = "upload"
           contO == {x \in q.contO : x[1] = rq.oid}
           everO == {x \in q.everO : x[1] = rq.oid}
       IN V(\/ rq.cmd = "verify" /\ up /\ e.st = 404 /\ contO # {}
            \/ rq.cmd = "verify" /\ up /\ e.st = 409 /\ \A x \in everO : x[2] = rq.size
            \/ rq.cmd = "verify" /\ up /\ e.st = 200 /\ \A x \in everO : x[2] # rq.size
            \/ rq.cmd = "get" /\ ~up /\ e.st = 404 /\ contO # {}
            \/ rq.cmd = "unlock" /\ up /\ e.st = 404 /\ \E r \in q.contL : r.id = rq.id
            \/ rq.cmd = "lock" /\ up /\ e.st = 409 /\ \A r \in q.everL : r.path # rq.path
            \/ rq.cmd = "list" /\ rq.haspath /\ e.st = 404 /\ \E r \in q.contL : r.path = rq.path, "C22")

(* Answers that cannot belong to the request. *)
Shape(e, S, rq) ==
  LET ok == e.st \in 200 .. 299
  IN CASE rq.cls = "bad" -> ~ok
       [] rq.cls # "ok" -> TRUE
       [] rq.cmd \in {"version", "quit"} -> e.st = 200 /\ e.args = <<>>
       [] ~ok -> TRUE
       [] rq.cmd \in {"put", "verify"} -> e.args = <<>> /\ e.data = <<>>
       [] rq.cmd = "get" -> Len(e.args) = 1 /\ HasPrefix(e.args[1], "size=")
       [] rq.cmd = "batch" -> /\ e.args = <<>> /\ Len(e.data) = Len(rq.items)
                              /\ \A k \in DOMAIN rq.items : HasPrefix(e.data[k], rq.items[k].oid \o " ")
       [] rq.cmd = "lock" -> ArgOf(e.args, "path=") = rq.path /\ ~e.delim
       [] rq.cmd = "unlock" -> ArgOf(e.args, "id=") = rq.id /\ ~e.delim
       [] rq.cmd = "list" -> e.delim /\ Listed(e).ok
       [] OTHER -> TRUE

Refusable(S, rq) == \* well-formed, and yet may be answered 400
  \/ S.mode = "download" /\ rq.cmd \in {"lock", "unlock"}
  \/ rq.cmd = "put" /\ ~rq.match

ViolRes1(h, e, S, q, rq) ==
  UNION { ViolPut(h, e, S, q, rq), ViolAcked(h, e, S, q, rq), ViolGet(h, e, S, q, rq),
          ViolBatch(h, e, S, q, rq), ViolVerify(h, e, S, q, rq), ViolMode(h, e, S, q, rq),
          ViolLock(h, e, S, q, rq), ViolUnlock(h, e, S, q, rq), ViolList(h, e, S, q, rq) }

ViolRes(h, e) ==
  IF ~Known(h, e.s) \/ ~h.ses[e.s].busy THEN {"C15"}
  ELSE
  LET S == h.ses[e.s]
      q == S.q
      rq == q.rq
      v == ViolRes1(h, e, S, q, rq)
  IN v \cup UNION {
    ViolBelief(h, e, S, q, rq), ViolMisreport(h, e, S, q, rq),
    V(~Shape(e, S, rq) \/ S.quit, "C15"),
    V(rq.cls = "cut" /\ e.st \in 200 .. 299 /\ rq.cmd # "quit", "C16"),
    V(rq.cls = "bad" /\ e.st \notin 400 .. 499, "C17"),
    V(rq.cls = "ok" /\ e.st = 400 /\ ~q.fault /\ ~Refusable(S, rq), "C17"),
    V(S.broken /\ e.st \in 200 .. 299, "C20"),
    V(~S.exempt /\ \E t \in h.temps \ h.bases : h.tby[t] = e.s, "C24"),
    \* after a fault, the following requests are served correctly
    V(S.faulted /\ ~q.fault /\ (v # {} \/ (rq.cls = "ok" /\ e.st >= 500 /\ rq.path \notin q.gone)), "C22") }

ViolExit(h, e) ==
  LET S == h.ses[e.s]
      unanswered == ~S.deaf /\ ((S.busy /\ S.q.rq.cls \notin {"cut", "broken"}) \/ e.more > 0)
      left == ~S.deaf /\ S.busy /\ S.q.rq.cls = "ok" /\ ~S.q.fault /\ ~S.quit /\ ~S.broken
      up == S.mode = "upload"
      cmd == S.q.rq.cmd
  IN UNION {
    \* whom nobody reads may be ended by the broken pipe
    V(e.code \notin {0, 2} \cup (IF S.deaf THEN {-13} ELSE {}), "C18"),
    V(unanswered /\ ~S.quit /\ ~S.broken /\ ~S.q.fault, "C15"),
    V(S.quit /\ e.code # 0, "C15"),
    V(unanswered /\ ~S.quit /\ ~S.broken /\ S.bads, "C17"),
    V(left /\ cmd = "lock" /\ up, "C09"),
    V(left /\ cmd = "put" /\ S.q.rq.match /\ up, "C02"),
    V(left /\ cmd = "get" /\ ~up, "C04"),
    V(left /\ cmd = "batch", "C05"),
    V(left /\ cmd = "verify" /\ up, "C06"),
    V(left /\ cmd = "list", "C11"),
    V(left /\ cmd = "unlock" /\ up, "C12"),
    V(S.faulted /\ (e.code \notin {0, 2} \cup (IF S.deaf THEN {-13} ELSE {}) \/ (unanswered /\ ~(S.q.fault /\ cmd = "get" /\ ~up))), "C22"),
    V(S.broken /\ ~S.deaf /\ e.code = 0 /\ ~S.errAfterBroken, "C20"),
    V(~S.exempt /\ \E t \in h.temps \ h.bases : h.tby[t] = e.s, "C24"),
    V("kill" \in h.trouble /\ left /\ cmd \in {"lock", "unlock", "list"}, "C10") }

(* Files a request may touch *)
ViolAcc(h, e) ==
  LET q == Cur(h, e.s)
      rq == q.rq
      w == e.op = "write"
  IN V(\/ e.area = "outside" \/ e.area = "stray"
       \/ e.area = "system" /\ w
       \/ w /\ e.area = "objects" /\ ~(rq.cmd = "put" /\ rq.oid = e.name)
       \/ w /\ e.area = "locks" /\ ~(\/ rq.cmd = "lock" /\ rq.cls # "bad"
                                     \/ rq.cmd = "unlock" /\ rq.id = e.name)
       \/ w /\ e.area = "locktemp" /\ rq.cmd \notin {"lock", "unlock"}
       \/ w /\ e.area = "temp" /\ rq.cmd \notin {"put", "lock", "unlock"}
       \/ ~w /\ e.area = "objects" /\ rq.cls # "any" /\
            ~(\/ rq.cmd \in {"get", "verify", "put"} /\ rq.oid = e.name
              \/ rq.cmd = "batch" /\ \E k \in DOMAIN rq.items : rq.items[k].oid = e.name), "C21")

\* The beginning of an answer whose rest nobody reads.
ViolDeaf(h, e) ==
  LET S == h.ses[e.s]
      q == S.q
  IN V(/\ e.part /\ S.busy /\ S.mode = "download" /\ q.rq.cmd = "get" /\ q.rq.cls = "ok" /\ e.st \in 200 .. 299
       /\ ~\E x \in q.everO : x[1] = q.rq.oid /\ e.args = <<"size=" \o x[2] \o "\n">>, "C04")

Viol(h, e) ==
  CASE e.k = "fs" -> ViolFs(h, e)
    [] e.k = "res" -> ViolRes(h, e)
    [] e.k = "exit" -> ViolExit(h, e)
    [] e.k = "hang" -> {"C18"} \cup V(Cur(h, e.s).rq.cmd = "lock", "C09")
                       \cup V(h.ses[e.s].faulted, "C22") \cup V(Cur(h, e.s).rq.cls # "cut", "C15")
    [] e.k = "junk" -> \* a download may end early if the object cannot be read
                       V(~(Cur(h, e.s).fault /\ Cur(h, e.s).rq.cmd = "get" /\ e.why = "output ends within a response"), "C18")
    [] e.k = "acc" -> ViolAcc(h, e)
    [] e.k = "deaf" -> ViolDeaf(h, e)
    [] OTHER -> {}
=============================================================================
