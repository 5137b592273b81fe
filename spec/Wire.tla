-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The request language of the server: which sequences of packets are      *)
(* requests, which of them are malformed, and what a well-formed request   *)
(* asks for.  Bytes are characters (Latin-1).  A request is given as the   *)
(* sequence of its packets before the final flush packet:                  *)
(*    [t |-> "D", b |-> text, n |-> length]   data                         *)
(*    [t |-> "X", b |-> "",   n |-> length]   data of more than 5000 bytes *)
(*    [t |-> "B", b |-> "",   n |-> length]   data of an object's body     *)
(*    [t |-> "|", b |-> "",   n |-> 0]        delimiter                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LowerHex == Digit \cup {"a", "b", "c", "d", "e", "f"}
Val == [c \in LowerHex |->
          CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
            [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
            [] c = "8" -> 8 [] c = "9" -> 9 [] c = "a" -> 10 [] c = "b" -> 11
            [] c = "c" -> 12 [] c = "d" -> 13 [] c = "e" -> 14 [] c = "f" -> 15]

\* An object or lock identifier.
AllHex(s) == \A i \in 1 .. Len(s) : Ch(s, i) \in LowerHex
IsHash(s) == Len(s) = 64 /\ \A i \in 1 .. 64 : Ch(s, i) \in LowerHex

\* Order of texts made of digits and a-f.
RECURSIVE HexLessFrom(_, _, _)
HexLessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN HexLessFrom(a, b, i + 1)
  ELSE Val[Ch(a, i)] < Val[Ch(b, i)]
HexLess(a, b) == HexLessFrom(a, b, 1)

EndsNL(s) == Len(s) > 0 /\ Ch(s, Len(s)) = "\n"
Chomp(s) == IF EndsNL(s) THEN SubSeq(s, 1, Len(s) - 1) ELSE s

RECURSIVE Find(_, _, _)
\* The first position from i on at which character c stands, 0 if none.
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Find(s, c, i + 1)

RECURSIVE Split(_, _)
Split(s, c) ==
  LET i == Find(s, c, 1)
  IN IF i = 0 THEN <<s>>
     ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
After(s, p) == SubSeq(s, Len(p) + 1, Len(s))

(* Numbers are 64-bit unsigned, in decimal.  "odd" forms - a sign or leading
   zeros - are neither required to be accepted nor to be refused. *)
MaxU64 == "18446744073709551615"
AllDigits(s) == Len(s) > 0 /\ \A i \in 1 .. Len(s) : Ch(s, i) \in Digit
RECURSIVE DigitsLE(_, _, _)
DigitsLE(a, b, i) ==
  IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN DigitsLE(a, b, i + 1)
  ELSE Val[Ch(a, i)] < Val[Ch(b, i)]
NumKind(s) ==
  IF AllDigits(s)
  THEN IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN "odd"
       ELSE IF Len(s) < 20 \/ (Len(s) = 20 /\ DigitsLE(s, MaxU64, 1)) THEN "ok"
       ELSE "bad"
  ELSE IF Len(s) > 1 /\ Ch(s, 1) = "+" /\ AllDigits(SubSeq(s, 2, Len(s))) THEN "odd"
  ELSE "bad"
SmallNum(s) == \* the value, or 1000 if it is larger
  IF Len(s) > 3 THEN 1000
  ELSE IF Len(s) = 1 THEN Val[Ch(s, 1)]
  ELSE IF Len(s) = 2 THEN 10 * Val[Ch(s, 1)] + Val[Ch(s, 2)]
  ELSE 100 * Val[Ch(s, 1)] + 10 * Val[Ch(s, 2)] + Val[Ch(s, 3)]

(* Arguments: one packet each, key=value and a newline, no key twice. *)
ArgOk(p) == p.t = "D" /\ Find(p.b, "=", 1) > 0 /\ EndsNL(p.b)
ArgKey(p) == SubSeq(p.b, 1, Find(p.b, "=", 1) - 1)
ArgVal(p) == SubSeq(p.b, Find(p.b, "=", 1) + 1, Len(p.b) - 1)
ArgsOk(ps) ==
  /\ \A i \in DOMAIN ps : ArgOk(ps[i])
  /\ \A i, j \in DOMAIN ps : i # j => ArgKey(ps[i]) # ArgKey(ps[j])
Has(ps, k) == \E i \in DOMAIN ps : ArgKey(ps[i]) = k
Get(ps, k) == ArgVal(ps[CHOOSE i \in DOMAIN ps : ArgKey(ps[i]) = k])

IsDelim(p) == p.t = "|"
NoDelim(ps) == \A i \in DOMAIN ps : ~IsDelim(ps[i])
FirstDelim(ps) == CHOOSE i \in DOMAIN ps : IsDelim(ps[i]) /\ \A j \in 1 .. i - 1 : ~IsDelim(ps[j])

\* cls: "ok" well-formed, "bad" malformed, "any" left open, "cut" incomplete,
\* "broken" not made of packets.
Blank == [cls |-> "any", cmd |-> "", oid |-> "", size |-> "", match |-> FALSE,
          path |-> "", id |-> "", lim |-> 100, cur |-> "", hascur |-> FALSE,
          haspath |-> FALSE, items |-> <<>>]
Bad(cmd) == [Blank EXCEPT !.cls = "bad", !.cmd = cmd]
Loose(cmd) == [Blank EXCEPT !.cmd = cmd]

LineOk(p) == p.t = "D" /\ EndsNL(p.b)
             /\ LET w == Split(Chomp(p.b), " ")
                IN Len(w) = 2 /\ IsHash(w[1]) /\ NumKind(w[2]) # "bad"
LineOdd(p) == NumKind(Split(Chomp(p.b), " ")[2]) = "odd"
Line(p) == LET w == Split(Chomp(p.b), " ") IN [oid |-> w[1], size |-> w[2]]

Batch(w, ps) ==
  IF Len(w) # 1 THEN Loose("batch")
  ELSE IF NoDelim(ps) THEN Bad("batch")
  ELSE LET d == FirstDelim(ps)
           args == SubSeq(ps, 1, d - 1)
           lines == SubSeq(ps, d + 1, Len(ps))
       IN IF ~NoDelim(lines) \/ ~ArgsOk(args) THEN Bad("batch")
          ELSE IF Has(args, "hash-algo") /\ Get(args, "hash-algo") # "sha256" THEN Bad("batch")
          ELSE IF \E i \in DOMAIN lines : ~LineOk(lines[i]) THEN Bad("batch")
          ELSE IF \E i \in DOMAIN lines : LineOdd(lines[i]) THEN Loose("batch")
          ELSE [Blank EXCEPT !.cls = "ok", !.cmd = "batch",
                             !.items = [i \in DOMAIN lines |-> Line(lines[i])]]

Put(w, ps, bl, bo) ==
  IF Len(w) < 2 \/ ~IsHash(w[2]) THEN Bad("put")
  ELSE IF NoDelim(ps) THEN Bad("put")
  ELSE LET d == FirstDelim(ps)
           args == SubSeq(ps, 1, d - 1)
           body == SubSeq(ps, d + 1, Len(ps))
       IN IF ~ArgsOk(args) \/ ~Has(args, "size") THEN Bad("put")
          ELSE LET size == Get(args, "size")
                   r == [Blank EXCEPT !.cmd = "put", !.oid = w[2], !.size = size,
                                      !.match = (size = bl /\ bo = w[2])]
               IN IF NumKind(size) = "bad" THEN Bad("put")
                  ELSE IF NumKind(size) = "odd" THEN [r EXCEPT !.match = (bo = w[2])]
                  ELSE IF ~NoDelim(body) \/ Len(w) > 2 THEN r
                  ELSE [r EXCEPT !.cls = "ok"]

Verify(w, ps) ==
  IF Len(w) < 2 \/ ~IsHash(w[2]) THEN Bad("verify")
  ELSE IF ~NoDelim(ps) \/ ~ArgsOk(ps) \/ ~Has(ps, "size") THEN Bad("verify")
  ELSE LET size == Get(ps, "size")
           r == [Blank EXCEPT !.cmd = "verify", !.oid = w[2], !.size = size]
       IN IF NumKind(size) = "bad" THEN Bad("verify")
          ELSE IF NumKind(size) = "odd" \/ Len(w) > 2 THEN r
          ELSE [r EXCEPT !.cls = "ok"]

GetObject(w, ps) ==
  IF Len(w) < 2 \/ ~IsHash(w[2]) THEN Bad("get")
  ELSE IF ~NoDelim(ps) \/ ~ArgsOk(ps) THEN Bad("get")
  ELSE [Blank EXCEPT !.cls = IF Len(w) = 2 THEN "ok" ELSE "any", !.cmd = "get", !.oid = w[2]]

LockReq(w, ps) ==
  IF Len(w) # 1 THEN Loose("lock")
  ELSE IF ~NoDelim(ps) \/ ~ArgsOk(ps) \/ ~Has(ps, "path") \/ ~Has(ps, "refname") THEN Bad("lock")
  ELSE [Blank EXCEPT !.cls = IF Get(ps, "path") = "" THEN "any" ELSE "ok", !.cmd = "lock",
                     !.path = Get(ps, "path")]

ListReq(w, ps) ==
  IF Len(w) # 1 THEN Loose("list")
  ELSE IF ~NoDelim(ps) \/ ~ArgsOk(ps) THEN Bad("list")
  ELSE LET lim == IF Has(ps, "limit") THEN Get(ps, "limit") ELSE "100"
           hascur == Has(ps, "cursor")
           haspath == Has(ps, "path")
       IN IF NumKind(lim) = "bad" \/ lim = "0" THEN Bad("list")
          ELSE IF NumKind(lim) = "odd" \/ (hascur /\ haspath) THEN Loose("list")
          ELSE IF hascur /\ ~AllHex(Get(ps, "cursor")) THEN Loose("list")
          ELSE [Blank EXCEPT !.cls = "ok", !.cmd = "list",
                  !.lim = IF SmallNum(lim) > 100 THEN 100 ELSE SmallNum(lim),
                  !.hascur = hascur, !.cur = IF hascur THEN Get(ps, "cursor") ELSE "",
                  !.haspath = haspath, !.path = IF haspath THEN Get(ps, "path") ELSE ""]

PrintableAscii == {Ch(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~", i) : i \in 1 .. 95}
Plain(s) == \A i \in 1 .. Len(s) : Ch(s, i) \in PrintableAscii

UnlockReq(w, ps) ==
  IF Len(w) < 2 THEN Bad("unlock")
  ELSE IF ~NoDelim(ps) THEN Loose("unlock")
  ELSE [Blank EXCEPT !.cls = IF Len(w) = 2 /\ Plain(w[2]) /\ ArgsOk(ps) THEN "ok" ELSE "any",
                     !.cmd = "unlock", !.id = w[2]]

Complete(pk, bl, bo) ==
  IF pk = <<>> THEN Bad("none")
  ELSE IF pk[1].t = "|" \/ (pk[1].t = "D" /\ pk[1].n = 0) THEN Bad("none")
  ELSE IF pk[1].t # "D" THEN Bad("none")
  ELSE LET w == Split(Chomp(pk[1].b), " ")
           ps == Tail(pk)
           names == [x \in {"put-object", "verify-object", "get-object", "list-lock"} |->
                       CASE x = "put-object" -> "put" [] x = "verify-object" -> "verify"
                         [] x = "get-object" -> "get" [] OTHER -> "list"]
       IN CASE \E i \in DOMAIN pk : pk[i].t = "X" ->
                 Loose(IF w[1] \in DOMAIN names THEN names[w[1]] ELSE w[1])
            [] w[1] = "version" ->
                 IF Len(w) < 2 \/ w[2] # "1" THEN Bad("version")
                 ELSE IF Len(w) = 2 /\ ps = <<>> THEN [Loose("version") EXCEPT !.cls = "ok"]
                 ELSE Loose("version")
            [] w[1] = "quit" -> IF Len(w) = 1 /\ ps = <<>> THEN [Loose("quit") EXCEPT !.cls = "ok"]
                                ELSE Loose("quit")
            [] w[1] = "batch" -> Batch(w, ps)
            [] w[1] = "put-object" -> Put(w, ps, bl, bo)
            [] w[1] = "verify-object" -> Verify(w, ps)
            [] w[1] = "get-object" -> GetObject(w, ps)
            [] w[1] = "lock" -> LockReq(w, ps)
            [] w[1] = "list-lock" -> ListReq(w, ps)
            [] w[1] = "unlock" -> UnlockReq(w, ps)
            [] OTHER -> Bad("unknown")

IsQuit(pk) == Len(pk) >= 1 /\ pk[1].t = "D" /\ Split(Chomp(pk[1].b), " ")[1] = "quit"

Classify(pk, bl, bo, end) ==
  IF end = "flush" THEN Complete(pk, bl, bo)
  ELSE [Blank EXCEPT !.cls = IF end = "bad" THEN "broken" ELSE "cut",
                     !.cmd = IF IsQuit(pk) THEN "quit" ELSE ""]

-----------------------------------------------------------------------------
(* What an answer about locks says. *)
NoDet == [id |-> "", path |-> "", at |-> "", owner |-> ""]
ArgOf(args, k) ==
  LET m == {i \in DOMAIN args : HasPrefix(args[i], k) /\ EndsNL(args[i])}
  IN IF Cardinality(m) # 1 THEN "<none>"
     ELSE LET a == args[CHOOSE i \in m : TRUE] IN SubSeq(a, Len(k) + 1, Len(a) - 1)
Det(args) == [id |-> ArgOf(args, "id="), path |-> ArgOf(args, "path="),
              at |-> ArgOf(args, "locked-at="), owner |-> ArgOf(args, "ownername=")]

\* A listing: sequence of [id, path, at, owner, mark]; [ok |-> FALSE, ...] if it is not one.
RECURSIVE ListFrom(_, _, _)
ListFrom(data, i, acc) ==
  IF i > Len(data) THEN [ok |-> TRUE, l |-> acc]
  ELSE LET line == data[i]
           n == Len(acc)
           cur == acc[n]
           key(k) == k \o " " \o cur.id \o " "
           is(k) == n > 0 /\ HasPrefix(line, key(k))
           v(k) == SubSeq(line, Len(key(k)) + 1, Len(line) - 1)
       IN IF ~EndsNL(line) THEN [ok |-> FALSE, l |-> acc]
          ELSE IF HasPrefix(line, "lock ")
          THEN ListFrom(data, i + 1,
                 Append(acc, [id |-> SubSeq(line, 6, Len(line) - 1), path |-> "<none>",
                              at |-> "<none>", owner |-> "<none>", mark |-> ""]))
          ELSE IF is("path") THEN ListFrom(data, i + 1, [acc EXCEPT ![n].path = v("path")])
          ELSE IF is("locked-at") THEN ListFrom(data, i + 1, [acc EXCEPT ![n].at = v("locked-at")])
          ELSE IF is("ownername") THEN ListFrom(data, i + 1, [acc EXCEPT ![n].owner = v("ownername")])
          ELSE IF is("owner") THEN ListFrom(data, i + 1, [acc EXCEPT ![n].mark = v("owner")])
          ELSE [ok |-> FALSE, l |-> acc]
Listing(data) == ListFrom(data, 1, <<>>)
=============================================================================
