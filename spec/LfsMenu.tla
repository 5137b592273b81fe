------------------------------ MODULE LfsMenu ------------------------------
(***************************************************************************)
(* What the server promises, request by request.  The store is a function  *)
(* from identifiers to lengths and one from lock ids to paths and owners;  *)
(* sessions differ in mode and user; a request is a sequence of packets    *)
(* out of a menu, read by Wire, and is served in one step.                 *)
(*                                                                         *)
(* TLC explores the reachable stores with every request of the menu in     *)
(* every session, after every kind of previous request ("last"), shows the *)
(* laws below for all of it, and prints the edges: request, answer, store. *)
(* driver/menu.py takes tours through that graph with the real server,     *)
(* compares the answers and stores, and gives the recorded executions to   *)
(* LfsTrace.                                                               *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils, TLC, TLCExt, SequencesExt, FiniteSetsExt

Conf == ndJsonDeserialize(IOEnv.MENU)[1]
Edges == IOEnv.EDGES = "yes"
Depth == IOEnv.LAST   \* "none", "kind" or "request": what is remembered of the previous request

VARIABLES objs,   \* identifier -> length (text)
          locks,  \* id -> [path, owner]
          last    \* the previous request and the answer it got

vars == <<objs, locks, last>>

Menu == Conf.menu
Rqs == [k \in DOMAIN Menu |-> LET r == Menu[k] IN Classify(r.pk, r.bl, r.bo, r.end)]
Ses == Conf.sessions
IdOf(path) == Conf.ids[path]
Put1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* An answer: status, arguments, data; locked-at and messages are left out.
A(st, args, data) == [st |-> st, args |-> args, data |-> data, dn |-> "", do |-> "", objs |-> objs, locks |-> locks]
No(st) == A(st, <<>>, <<>>)
Details(i) == <<"id=" \o i \o "\n", "path=" \o locks[i].path \o "\n", "ownername=" \o locks[i].owner \o "\n">>
Spec(s, i) ==
  <<"lock " \o i \o "\n", "path " \o i \o " " \o locks[i].path \o "\n", "ownername " \o i \o " " \o locks[i].owner \o "\n">>
  \o IF Ses[s].mode = "upload"
     THEN <<"owner " \o i \o " " \o (IF locks[i].owner = Ses[s].user THEN "ours" ELSE "theirs") \o "\n">> ELSE <<>>
SpecsOf(s, ids) == FlattenSeq([k \in DOMAIN ids |-> Spec(s, ids[k])])

Serve(s, rq) ==
  LET up == Ses[s].mode = "upload"
  IN CASE rq.cls = "bad" -> No(IF (rq.cmd \in {"put", "verify"} /\ ~up) \/ (rq.cmd = "get" /\ up) THEN 403 ELSE 400)
       [] rq.cmd \in {"version", "quit"} -> No(200)
       [] rq.cmd = "put" ->
            IF ~up THEN No(403)
            ELSE IF rq.match THEN [No(200) EXCEPT !.objs = Put1(objs, rq.oid, rq.size)] ELSE No(400)
       [] rq.cmd = "verify" ->
            IF ~up THEN No(403)
            ELSE IF rq.oid \notin DOMAIN objs THEN No(404) ELSE IF objs[rq.oid] = rq.size THEN No(200) ELSE No(409)
       [] rq.cmd = "get" ->
            IF up THEN No(403)
            ELSE IF rq.oid \notin DOMAIN objs THEN No(404)
            ELSE [A(200, <<"size=" \o objs[rq.oid] \o "\n">>, <<>>) EXCEPT !.dn = objs[rq.oid], !.do = rq.oid]
       [] rq.cmd = "batch" ->
            A(200, <<>>, [k \in DOMAIN rq.items |->
              LET it == rq.items[k]
                  has == it.oid \in DOMAIN objs
              IN it.oid \o " " \o (IF has THEN objs[it.oid] ELSE it.size) \o " "
                 \o (IF has = up THEN "noop" ELSE IF up THEN "upload" ELSE "download") \o "\n"])
       [] rq.cmd = "lock" ->
            IF ~up THEN No(400)
            ELSE IF IdOf(rq.path) \in DOMAIN locks THEN A(409, Details(IdOf(rq.path)), <<>>)
            ELSE LET i == IdOf(rq.path)
                 IN [A(201, <<"id=" \o i \o "\n", "path=" \o rq.path \o "\n", "ownername=" \o Ses[s].user \o "\n">>, <<>>)
                       EXCEPT !.locks = Put1(locks, i, [path |-> rq.path, owner |-> Ses[s].user])]
       [] rq.cmd = "unlock" ->
            IF ~up THEN No(400)
            ELSE IF rq.id \in DOMAIN locks THEN [A(200, Details(rq.id), <<>>) EXCEPT !.locks = Del(locks, rq.id)]
            ELSE No(404)
       [] rq.cmd = "list" /\ rq.haspath ->
            IF IdOf(rq.path) \in DOMAIN locks THEN A(200, <<>>, Spec(s, IdOf(rq.path))) ELSE No(404)
       [] rq.cmd = "list" ->
            LET ids == SetToSortSeq({i \in DOMAIN locks : ~rq.hascur \/ ~HexLess(i, rq.cur)}, HexLess)
            IN IF Len(ids) > rq.lim
               THEN A(200, <<"next-cursor=" \o ids[rq.lim + 1] \o "\n">>, SpecsOf(s, SubSeq(ids, 1, rq.lim)))
               ELSE A(200, <<>>, SpecsOf(s, ids))

Kind(k, a) == IF Depth = "none" THEN <<>> ELSE IF Depth = "kind" THEN <<Rqs[k].cmd, a.st>> ELSE <<k, a.st>>

Request(s, k) ==
  LET a == Serve(s, Rqs[k])
  IN objs' = a.objs /\ locks' = a.locks /\ last' = IF Depth = "none" THEN <<>> ELSE <<s>> \o Kind(k, a)

Init == objs = [o \in {} |-> ""] /\ locks = [i \in {} |-> ""] /\ last = <<>>
Next == \E s \in DOMAIN Ses, k \in DOMAIN Menu : Request(s, k)
Spec0 == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Laws of the request-level specification itself. *)

Typed ==
  /\ \A k \in DOMAIN Menu : Rqs[k].cls \in {"ok", "bad"}
  /\ \A i \in DOMAIN locks : IdOf(locks[i].path) = i
\* a request changes at most one thing, objects only appear, and only uploads change anything
Effects ==
  \A s \in DOMAIN Ses, k \in DOMAIN Menu :
    LET a == Serve(s, Rqs[k])
        rq == Rqs[k]
    IN /\ DOMAIN objs \subseteq DOMAIN a.objs /\ \A o \in DOMAIN objs : a.objs[o] = objs[o]
       /\ a.objs # objs => (rq.cmd = "put" /\ a.st = 200 /\ a.locks = locks)
       /\ a.locks # locks => (rq.cmd \in {"lock", "unlock"} /\ a.st \in {200, 201} /\ a.objs = objs)
       /\ (Ses[s].mode = "download" \/ a.st >= 400) => (a.objs = objs /\ a.locks = locks)
       /\ (rq.cmd = "lock" /\ a.st = 201) => a.locks # locks
       /\ (rq.cmd = "unlock" /\ a.st = 200) => a.locks # locks
\* following the cursor yields every lock once, in order
RECURSIVE PagesFrom(_, _, _, _)
PagesFrom(s, lim, rq, n) ==
  LET a == Serve(s, rq)
      ids == SelectSeq(a.data, LAMBDA l : HasPrefix(l, "lock "))
  IN IF a.args = <<>> \/ n = 0 THEN ids
     ELSE ids \o PagesFrom(s, lim, [rq EXCEPT !.hascur = TRUE, !.cur = SubSeq(a.args[1], 13, Len(a.args[1]) - 1)], n - 1)
Paging ==
  \A s \in DOMAIN Ses, k \in DOMAIN Menu :
    (Rqs[k].cmd = "list" /\ Rqs[k].cls = "ok" /\ ~Rqs[k].haspath /\ ~Rqs[k].hascur) =>
      LET ids == SetToSortSeq(DOMAIN locks, HexLess)
      IN PagesFrom(s, Rqs[k].lim, Rqs[k], 10) = [n \in DOMAIN ids |-> "lock " \o ids[n] \o "\n"]

FP(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
\* every edge, from each state once
Graph ==
  ~Edges \/ \A s \in DOMAIN Ses, k \in DOMAIN Menu :
    LET a == Serve(s, Rqs[k])
        l == IF Depth = "none" THEN <<>> ELSE <<s>> \o Kind(k, a)
    IN PrintT(ToJson([f |-> FP(<<objs, locks, last>>), t |-> FP(<<a.objs, a.locks, l>>), s |-> s, k |-> k,
                      a |-> [st |-> a.st, args |-> a.args, data |-> a.data, dn |-> a.dn, do |-> a.do],
                      o |-> IF a.objs = objs THEN <<>> ELSE SetToSeq(DOMAIN a.objs),
                      l |-> IF a.locks = locks THEN <<>> ELSE SetToSeq(DOMAIN a.locks), c |-> a.objs # objs, d |-> a.locks # locks]))
Laws == Typed /\ Effects /\ Paging /\ Graph
=============================================================================
