------------------------------ MODULE PrTrace ------------------------------
EXTENDS Pr, Json, IOUtils, SequencesExt
VARIABLES i, us, seen, out
Trace == ndJsonDeserialize(IOEnv.TRACE)

(* several outcomes may be left open (the order of a move, the counter of a registration that changes nothing, the order of simultaneous   *)
(* requests): us holds, per unit, every state it may be in                                                                               *)
Fits(o, x) == o.st = x.st /\ (o.st = RES_CHECK => <<x.key, x.asc>> \in o.why)
OutBad(e) ==
  LET os == UNION {PrOut(u, e.q) : u \in us[e.unit]}
      m == {o \in os : Fits(o, e)}
      m2 == IF m # {} THEN m ELSE {o \in os : o.st = e.st}
  IN [bad |-> IF m # {} THEN {} ELSE IF m2 # {} THEN {"sense"} ELSE IF e.st = -1 THEN {"noresponse"} ELSE {"pr-status"},
      us |-> {o.u : o \in (IF m2 # {} THEN m2 ELSE os)}]

(* simultaneous sequences of requests, one of each session: some interleaving explains all the answers *)
RECURSIVE Weave(_, _, _)
Weave(F, qs, n) ==
  IF n = 0 THEN F
  ELSE Weave(UNION {UNION {LET x == qs[k][f[1][k] + 1] IN {<<[f[1] EXCEPT ![k] = @ + 1], o.u>> : o \in {o \in PrOut(f[2], x.q) : Fits(o, x)}}
                                : k \in {k \in DOMAIN qs : f[1][k] < Len(qs[k])}} : f \in F}, qs, n - 1)
RECURSIVE Total(_)
Total(qs) == IF qs = <<>> THEN 0 ELSE Len(Head(qs)) + Total(Tail(qs))
Raced(e) ==
  LET F == Weave({<<[k \in DOMAIN e.qs |-> 0], u>> : u \in us[e.unit]}, e.qs, Total(e.qs)) IN
  IF F # {} THEN [us |-> {f[2] : f \in F}, bad |-> {}] ELSE [us |-> us[e.unit], bad |-> {"pr-race"}]

InBad(u, e) ==
  IF e.alloc < 8 THEN (IF e.st = RES_CHECK \/ (e.st = RES_GOOD /\ e.dinlen <= e.alloc) THEN {} ELSE {"pr-status"})
  ELSE IF e.st # RES_GOOD THEN {IF e.st = -1 THEN "noresponse" ELSE "pr-status"}
  ELSE IF e.sa = 0 THEN
       LET n == Cardinality(DOMAIN u.regs) fit == IF (e.alloc - 8) \div 8 < n THEN (e.alloc - 8) \div 8 ELSE n IN
       (IF e.gen # u.gen THEN {"pr-gen"} ELSE {})
       \union (IF e.addl # 8 * n \/ Len(e.keys) # fit \/ ~(IF fit = n THEN KeysRight(u, e.keys) ELSE KeysSome(u, e.keys)) THEN {"pr-keys"} ELSE {})
       \union (IF e.dinlen # (IF 8 + 8 * n < e.alloc THEN 8 + 8 * n ELSE e.alloc) THEN {"pr-len"} ELSE {})
  ELSE IF e.sa = 1 THEN
       (IF e.gen # u.gen THEN {"pr-gen"} ELSE {})
       \union (IF e.addl # (IF Held(u) THEN 16 ELSE 0) THEN {"pr-resv"} ELSE {})
       \union (IF Held(u) /\ e.alloc >= 24 /\ ~(e.rkey = ResvKey(u) /\ e.rscope = u.scope /\ e.rtype = u.type) THEN {"pr-resv"} ELSE {})
       \union (LET n == IF Held(u) THEN 24 ELSE 8 IN IF e.dinlen # (IF n < e.alloc THEN n ELSE e.alloc) THEN {"pr-len"} ELSE {})
  ELSE {}

In(ws, e) ==
  LET ok == {u \in ws : InBad(u, e) = {}}
      w == CHOOSE u \in ws : \A z \in ws : Cardinality(InBad(u, e)) <= Cardinality(InBad(z, e))
  IN IF ok # {} THEN [us |-> ok, bad |-> {}] ELSE [us |-> {w}, bad |-> InBad(w, e)]

Step(e) ==
  CASE e.e = "reset" -> [us |-> [x \in {e.units[k] : k \in 1..Len(e.units)} |-> {NoUnit}], bad |-> {}]
    [] e.e = "prout" -> LET r == OutBad(e) IN [us |-> [us EXCEPT ![e.unit] = r.us], bad |-> r.bad]
    [] e.e = "prin" -> LET r == In(us[e.unit], e) IN [us |-> [us EXCEPT ![e.unit] = r.us], bad |-> r.bad]
    [] e.e = "prace" -> LET r == Raced(e) IN [us |-> [us EXCEPT ![e.unit] = r.us], bad |-> r.bad]
    [] e.e = "bad" -> [us |-> us, bad |-> {e.what}]
    [] OTHER -> [us |-> us, bad |-> {}]

Init == i = 1 /\ us = [x \in {} |-> {}] /\ seen = {} /\ out = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i]
         r == Step(e)
         new == r.bad \ (IF e.e = "reset" THEN {} ELSE seen)
         o == IF new = {} THEN out ELSE Append(out, <<i, SetToSeq(new)>>)
     IN /\ us' = r.us
        /\ seen' = IF e.e = "reset" THEN {} ELSE seen \union r.bad
        /\ out' = o
        /\ IF i < Len(Trace) THEN TRUE ELSE JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), out |-> o])
  /\ i' = i + 1
=============================================================================
