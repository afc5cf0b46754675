------------------------------ MODULE RobustGen ------------------------------
(* Behaviours of peers and of the session that must not notice them: which    *)
(* connection does what next; the bytes are filled in by the generator.       *)
EXTENDS Robust, Json, TLC, Randomization
CONSTANTS Conns, Steps
VARIABLES cs, hist
Rnd(S) == RandomElement(S)
Kinds == {"mutate", "random-cdb", "mutate-cdb", "dataout", "params", "order", "tmf", "text", "junk", "login", "nop", "flood", "valid"}
GInit == cs = [x \in Conns |-> Fresh("closed")] /\ hist = <<>>
Do(x, k, ph, mid) == cs' = [cs EXCEPT ![x] = [phase |-> ph, mid |-> mid]] /\ hist' = Append(hist, [c |-> x, k |-> k, ph |-> ph])
GNext ==
  /\ Len(hist) < Steps
  /\ \E x \in {Rnd(Conns)}, q \in {Rnd(1..100)}, k \in {Rnd(Kinds)}, ph \in {Rnd({"tcp", "ffp", "ffp", "ffp", "disc"})}, f \in {Rnd({"ffp", "tcp", "ffp"})} :
       LET p == IF q > 30 THEN "ffp" ELSE ph IN
       IF q <= 12 THEN UNCHANGED cs /\ hist' = Append(hist, [c |-> x, k |-> "victim", ph |-> ""])
       ELSE IF cs[x].phase = "closed" THEN Do(x, "open", p, FALSE)
       ELSE IF q <= 18 THEN Do(x, "drop", "closed", FALSE)
       ELSE IF q <= 23 THEN Do(x, "cut", "closed", TRUE)
       ELSE IF q <= 27 THEN Do(x, "part", cs[x].phase, TRUE)
       ELSE IF cs[x].mid \/ q <= 55 THEN Do(x, "probe", cs[x].phase, FALSE)
       ELSE Do(x, k, cs[x].phase, FALSE)
  /\ (Len(hist') = Steps => PrintT(ToJson(hist')))
=============================================================================
