-------------------------------- MODULE LinMC -------------------------------
(* The worlds of Lin against the definition of linearizability: after every history of calls and returns on one block -        *)
(* reads may return anything - a world is left exactly when some order of the operations explains what was read.                *)
EXTENDS Lin
CONSTANTS Ops, Vals
VARIABLES hist, ws, pend, n

Kinds == {[stores |-> TRUE, or |-> FALSE, tok |-> 1], [stores |-> TRUE, or |-> FALSE, tok |-> 2], [stores |-> TRUE, or |-> TRUE, tok |-> 2],
          [stores |-> FALSE, or |-> FALSE, tok |-> 0]}
Init == hist = <<>> /\ ws = Fresh(0) /\ pend = {} /\ n = 0
Call == n < Ops /\ \E k \in Kinds :
  LET x == [id |-> n + 1, stores |-> k.stores, or |-> k.or, tok |-> k.tok] IN
  /\ ws' = Called(ws, x) /\ pend' = pend \union {x} /\ n' = n + 1
  /\ hist' = Append(hist, [k |-> "call", x |-> x, v |-> 0])
Ret == \E x \in pend : \E v \in (IF x.stores THEN {0} ELSE Vals) :
  /\ ws' = IF x.stores THEN Stored(ws, x, pend) ELSE Got(ws, x, pend, LAMBDA q : q = v)
  /\ pend' = pend \ {x} /\ UNCHANGED n
  /\ hist' = Append(hist, [k |-> "ret", x |-> x, v |-> v])
Next == ws # {} /\ (Call \/ Ret)

All == {hist[j].x : j \in {q \in 1..Len(hist) : hist[q].k = "call"}}
CallAt(x) == CHOOSE j \in 1..Len(hist) : hist[j].k = "call" /\ hist[j].x = x
RetAt(x) == IF x \in pend THEN 1000 ELSE CHOOSE j \in 1..Len(hist) : hist[j].k = "ret" /\ hist[j].x = x
RECURSIVE Explains(_, _)
(* some order of the operations left, from contents v, in which nobody overtakes who had returned before it was called *)
Explains(left, v) ==
  \/ \A x \in left : x \in pend
  \/ \E x \in left : /\ \A y \in left : ~(RetAt(y) < CallAt(x))
                     /\ IF x.stores THEN Explains(left \ {x}, Effect(x, v))
                        ELSE (x \in pend \/ hist[RetAt(x)].v = v) /\ Explains(left \ {x}, v)
Agree == (ws # {}) <=> Explains(All, 0)
=============================================================================
