--------------------------------- MODULE Pr ---------------------------------
(* Persistent reservations of one logical unit of one target (SPC).         *)
(* A unit is [gen, regs : session -> key (nonzero, hex text), holder : ""    *)
(* or a session, scope, type].  For the all-registrants types every          *)
(* registered session is a holder; `holder` then only marks that the         *)
(* reservation exists.                                                       *)
(* A request is [s, sa, scope, type, key, sark, len, flags].                 *)
EXTENDS Integers, Sequences, FiniteSets

Zero == "0000000000000000"
RES_GOOD == 0
RES_CHECK == 2
RES_CONFLICT == 24
FieldInCdb == <<5, 9216>>
FieldInParam == <<5, 9728>>
ParamLen == <<5, 6656>>
InvalidRelease == <<5, 9732>>

AllReg(t) == t \in {7, 8}
Types == {1, 3, 5, 6, 7, 8}
NoUnit == [gen |-> 0, regs |-> [x \in {} |-> Zero], holder |-> "", scope |-> 0, type |-> 0]

Reg(u, s) == s \in DOMAIN u.regs
KeyOk(u, q) == Reg(u, q.s) /\ u.regs[q.s] = q.key
Held(u) == u.holder # ""
Holds(u, s) == Held(u) /\ (u.holder = s \/ (AllReg(u.type) /\ Reg(u, s)))
Some(S) == CHOOSE x \in S : TRUE

Unreserved(u) == [u EXCEPT !.holder = "", !.scope = 0, !.type = 0]
Reserved(u, q) == [u EXCEPT !.holder = q.s, !.scope = q.scope, !.type = q.type]
Bump(u) == [u EXCEPT !.gen = @ + 1]
(* the registrations of S disappear *)
Drop(u, S) ==
  LET r == [x \in DOMAIN u.regs \ S |-> u.regs[x]]
      v == [u EXCEPT !.regs = r]
  IN IF ~Held(u) THEN v
     ELSE IF AllReg(u.type) THEN IF DOMAIN r = {} THEN Unreserved(v) ELSE [v EXCEPT !.holder = IF u.holder \in S THEN Some(DOMAIN r) ELSE @]
     ELSE IF u.holder \in S THEN Unreserved(v) ELSE v

Ok(u) == {[st |-> RES_GOOD, why |-> {}, u |-> u]}
Refuse(u, why) == {[st |-> RES_CHECK, why |-> why, u |-> u]}
Conflicts(u) == {[st |-> RES_CONFLICT, why |-> {}, u |-> u]}

BadList(q) == q.len # 24 \/ q.flags # 0
ListCauses(q) == (IF q.len # 24 THEN {ParamLen, FieldInCdb} ELSE {}) \union (IF q.flags # 0 THEN {FieldInCdb, FieldInParam} ELSE {})

Register(u, q) ==
  LET ignore == q.sa = 6 IN
  IF Reg(u, q.s)
  THEN IF ~ignore /\ u.regs[q.s] # q.key THEN Conflicts(u)
       ELSE IF q.sark # Zero THEN Ok(Bump([u EXCEPT !.regs[q.s] = q.sark]))
       ELSE Ok(Bump(Drop(u, {q.s})))
  ELSE IF ~ignore /\ q.key # Zero THEN Conflicts(u)
       ELSE IF q.sark # Zero THEN Ok(Bump([u EXCEPT !.regs = [x \in DOMAIN @ \union {q.s} |-> IF x = q.s THEN q.sark ELSE @[x]]]))
       ELSE Ok(u) \union Ok(Bump(u))

Reserve(u, q) ==
  LET bad == IF q.type \notin Types \/ q.scope # 0 THEN Refuse(u, {FieldInCdb}) ELSE {}
      rest == IF ~KeyOk(u, q) THEN Conflicts(u)
              ELSE IF bad # {} THEN {}
              ELSE IF ~Held(u) THEN Ok(Reserved(u, q))
              ELSE IF Holds(u, q.s) /\ u.type = q.type /\ u.scope = q.scope THEN Ok(u) ELSE Conflicts(u)
  IN bad \union rest

Release(u, q) ==
  IF ~KeyOk(u, q) THEN Conflicts(u)
  ELSE IF ~Held(u) \/ ~Holds(u, q.s) THEN Ok(u)
  ELSE IF q.type # u.type \/ q.scope # u.scope THEN Refuse(u, {InvalidRelease})
  ELSE Ok(Unreserved(u))

Clear(u, q) ==
  IF ~KeyOk(u, q) THEN Conflicts(u)
  ELSE Ok(Bump([Unreserved(u) EXCEPT !.regs = [x \in {} |-> Zero]]))

Preempt(u, q) ==
  LET has == {x \in DOMAIN u.regs : u.regs[x] = q.sark}
      take == Held(u) /\ (IF AllReg(u.type) THEN q.sark = Zero ELSE u.regs[u.holder] = q.sark)
      badtype == q.type \notin Types \/ q.scope # 0
  IN IF ~KeyOk(u, q) THEN Conflicts(u)
     ELSE IF q.sark = Zero /\ ~Held(u) THEN Ok(Bump(u)) \union Ok(u) \union Conflicts(u) \union Refuse(u, {FieldInCdb, FieldInParam})
     ELSE IF q.sark = Zero /\ ~AllReg(u.type) THEN Refuse(u, {FieldInCdb, FieldInParam})
     ELSE IF q.sark # Zero /\ has = {} THEN Conflicts(u)
     ELSE IF take /\ badtype THEN Refuse(u, {FieldInCdb})
     ELSE IF take THEN LET S == IF q.sark = Zero THEN DOMAIN u.regs \ {q.s} ELSE has \ {q.s}
                           v == [u EXCEPT !.regs = [x \in DOMAIN @ \ S |-> @[x]]]
                       IN Ok(Bump(Reserved(v, q)))
     ELSE Ok(Bump(Drop(u, has \ {q.s})))

(* the requester's transport gives the destination by its key only *)
Move(u, q) ==
  LET dst == {x \in DOMAIN u.regs : u.regs[x] = q.sark /\ x # q.s} IN
  IF ~Reg(u, q.s) THEN Conflicts(u) \union Refuse(u, {FieldInCdb, FieldInParam})
  ELSE IF u.regs[q.s] # q.key THEN Conflicts(u) \union Refuse(u, {FieldInCdb, FieldInParam}) \union (IF Holds(u, q.s) THEN {} ELSE Ok(u))
  ELSE IF ~Holds(u, q.s) THEN Conflicts(u) \union Refuse(u, {FieldInCdb}) \union Ok(u)
  ELSE IF q.sark = Zero \/ dst = {} THEN Conflicts(u) \union Refuse(u, {FieldInCdb, FieldInParam})
  ELSE UNION {LET v == [u EXCEPT !.holder = d] IN
              Ok(Bump(IF q.unreg THEN [v EXCEPT !.regs = [x \in DOMAIN @ \ {q.s} |-> @[x]]] ELSE v)) : d \in dst}

PrOut(u, q) ==
  IF q.sa = 7 THEN Move(u, q)
  ELSE (IF BadList(q) THEN Refuse(u, ListCauses(q)) ELSE
        CASE q.sa \in {0, 6} -> Register(u, q)
          [] q.sa = 1 -> Reserve(u, q)
          [] q.sa = 2 -> Release(u, q)
          [] q.sa = 3 -> Clear(u, q)
          [] q.sa = 4 -> Preempt(u, q)
          [] OTHER -> Refuse(u, {FieldInCdb}))
       \union (IF BadList(q) /\ q.sa \notin {0, 1, 2, 3, 4, 6} THEN Refuse(u, {FieldInCdb}) ELSE {})
       \union (IF BadList(q) /\ q.sa \in {1} /\ (q.type \notin Types \/ q.scope # 0) THEN Refuse(u, {FieldInCdb}) ELSE {})

(* what PERSISTENT RESERVE IN reports *)
Count(k, q) == Cardinality({i \in 1..Len(q) : q[i] = k})
KeysRight(u, keys) == Len(keys) = Cardinality(DOMAIN u.regs)
                      /\ \A i \in 1..Len(keys) : Count(keys[i], keys) = Cardinality({s \in DOMAIN u.regs : u.regs[s] = keys[i]})
KeysSome(u, keys) == \A i \in 1..Len(keys) : Count(keys[i], keys) <= Cardinality({s \in DOMAIN u.regs : u.regs[s] = keys[i]})
ResvKey(u) == IF AllReg(u.type) THEN Zero ELSE u.regs[u.holder]
=============================================================================
