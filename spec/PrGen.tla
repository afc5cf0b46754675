-------------------------------- MODULE PrGen -------------------------------
(* Histories of Pr, printed as JSON to be replayed on the real target.       *)
EXTENDS PrMC, Json
CONSTANT N
VARIABLE hist
(* a request that quotes its session's own key two times in three, a service action, and a second key that is often someone's *)
Draw ==
  \E s \in {RandomElement(Sessions)}, p \in {RandomElement(1..100)}, q2 \in {RandomElement(1..100)}, k \in {RandomElement(Keys \union {Zero})},
     k2 \in {RandomElement(Keys \union {Zero})}, t \in {RandomElement(TypeSet \ {0})}, sa \in {RandomElement({0, 0, 1, 1, 2, 3, 4, 4, 6, 7})}, un \in {RandomElement({TRUE, FALSE})} :
  LET own == IF Reg(u, s) THEN u.regs[s] ELSE Zero
      sa2 == IF ~Reg(u, s) /\ q2 <= 60 THEN IF q2 <= 30 THEN 0 ELSE 6 ELSE IF sa = 3 /\ q2 > 40 THEN 1 ELSE sa
      key == IF p <= 80 THEN own ELSE k
      oth == {u.regs[x] : x \in DOMAIN u.regs \ {s}}
      sark == IF sa2 \in {4, 7} /\ oth # {} /\ q2 <= 70 THEN RandomElement(oth) ELSE k2
      typ == IF Held(u) /\ sa2 \in {1, 2} /\ q2 <= 75 THEN u.type ELSE t
      r == Q(s, sa2, 0, typ, key, sark, un)
      ok == /\ sa2 = 4 => ~(sark = own /\ ~Holds(u, s))
            /\ sa2 = 7 => {x \in DOMAIN u.regs : u.regs[x] = sark} \ {s} # {} /\ Cardinality({x \in DOMAIN u.regs : u.regs[x] = sark}) = 1
  IN IF ok THEN \E o \in {RandomElement(PrOut(u, r))} : u' = o.u /\ act' = [q |-> r, st |-> o.st] /\ hist' = Append(hist, r)
     ELSE UNCHANGED <<u, act, hist>>
GInit == Init /\ hist = <<>>
GNext == Len(hist) < N /\ Draw /\ (Len(hist') = N /\ Len(hist) < N => PrintT(ToJson(hist')))
=============================================================================
