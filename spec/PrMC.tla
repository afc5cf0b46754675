-------------------------------- MODULE PrMC --------------------------------
(* All histories of persistent reservation requests on one unit, up to the  *)
(* generation counter.                                                       *)
EXTENDS Pr, TLC
CONSTANTS Sessions, Keys, TypeSet, Services
VARIABLES u, act
Q(s, sa, scope, type, key, sark, unreg) == [s |-> s, sa |-> sa, scope |-> scope, type |-> type, key |-> key, sark |-> sark, len |-> 24, flags |-> 0, unreg |-> unreg]
Requests == {Q(s, sa, sc, t, k, a, un) : s \in Sessions, sa \in Services, sc \in {0}, t \in TypeSet, k \in Keys \union {Zero}, a \in Keys \union {Zero}, un \in {FALSE}}
            \union {Q(s, 7, 0, 1, k, a, un) : s \in Sessions, k \in Keys, a \in Keys, un \in {TRUE, FALSE}}
Init == u = NoUnit /\ act = [q |-> Q("", 0, 0, 1, Zero, Zero, FALSE), st |-> 0]
Next == \E q \in Requests : \E o \in PrOut(u, q) : u' = o.u /\ act' = [q |-> q, st |-> o.st]
View == <<u.regs, u.holder, u.scope, u.type>>
Vars == <<u, act>>

(* a reservation belongs to someone registered *)
HolderRegistered == Held(u) => Reg(u, u.holder) /\ u.type \in Types
NoZeroKey == \A s \in DOMAIN u.regs : u.regs[s] # Zero
SameBut(a, b) == a.regs = b.regs /\ a.holder = b.holder /\ a.type = b.type /\ a.scope = b.scope
(* refused requests change nothing at all *)
RefusedInert == [][act'.st # RES_GOOD => u' = u]_Vars
(* a session that is not registered, or quotes another key, changes nothing except by registering *)
Strangers == [][~KeyOk(u, act'.q) /\ act'.q.sa \notin {0, 6} => SameBut(u, u')]_Vars
WrongKey == [][act'.q.sa = 0 /\ Reg(u, act'.q.s) /\ ~KeyOk(u, act'.q) => u' = u /\ act'.st = RES_CONFLICT]_Vars
(* the reservation goes only by its holder, by CLEAR, by PREEMPT, or with its holder's registration *)
OnlyHolder == [][Held(u) /\ ~(Held(u') /\ u'.type = u.type) =>
     \/ act'.q.sa \in {3, 4} /\ KeyOk(u, act'.q)
     \/ act'.q.sa \in {0, 2, 6} /\ Holds(u, act'.q.s)]_Vars
(* the counter *)
Counter == [][/\ u'.gen \in {u.gen, u.gen + 1}
              /\ act'.q.sa \in {1, 2} => u'.gen = u.gen
              /\ u'.regs # u.regs => u'.gen = u.gen + 1]_Vars
(* clearing leaves nothing; unregistering the only holder leaves no reservation *)
Cleared == [][act'.q.sa = 3 /\ act'.st = RES_GOOD => DOMAIN u'.regs = {} /\ ~Held(u')]_Vars
Others == [][act'.q.sa \in {0, 6} => \A s \in Sessions \ {act'.q.s} : Reg(u', s) = Reg(u, s) /\ (Reg(u, s) => u'.regs[s] = u.regs[s])]_Vars
Preempted == [][act'.q.sa = 4 /\ act'.st = RES_GOOD /\ act'.q.sark # Zero =>
     \A s \in DOMAIN u.regs : (s \in DOMAIN u'.regs) = (s = act'.q.s \/ u.regs[s] # act'.q.sark)]_Vars
=============================================================================
