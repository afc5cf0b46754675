------------------------------- MODULE LinTrace ------------------------------
(* Recorded histories of concurrent commands: every block has to have a       *)
(* world that explains all answers.                                           *)
EXTENDS Lin, Json, IOUtils, SequencesExt
VARIABLES i, b, ops, seen, out
(* b : device -> seq of [ws, pend] per block; ops : id -> call *)
Trace == ndJsonDeserialize(IOEnv.TRACE)
R(x, o, q) == [b |-> x, ops |-> o, bad |-> q]

Op(e, k) == [id |-> e.id, stores |-> e.k \in {"w", "or", "same"}, or |-> e.k = "or",
             tok |-> IF e.k \in {"w", "or"} THEN e.toks[k - e.lba] ELSE IF e.k = "same" THEN e.toks[1] ELSE 0]
Blocks(e) == (e.lba + 1)..(e.lba + e.n)

Call(e) ==
  R([b EXCEPT ![e.dev] = [k \in DOMAIN @ |-> IF k \notin Blocks(e) THEN @[k]
        ELSE LET x == Op(e, k) IN [ws |-> Called(@[k].ws, x), pend |-> @[k].pend \union {x}]]],
    [k \in DOMAIN ops \union {e.id} |-> IF k = e.id THEN e ELSE ops[k]], {})

(* the worlds of block k after e's operation returned as r says *)
After(e, r, k) ==
  LET q == b[e.dev][k]
      x == CHOOSE y \in q.pend : y.id = e.id
      p2 == q.pend \ {x}
      T(v) == v = r.vals[k - e.lba]
      M(v) == v = e.toks[1]
      N(v) == v # e.toks[1]
      A(v) == TRUE
      ws == IF x.stores THEN IF r.st = 0 THEN Stored(q.ws, x, q.pend) ELSE Close(q.ws, q.pend)
            ELSE IF e.k = "r" /\ r.st = 0 THEN Got(q.ws, x, q.pend, T)
            ELSE IF e.k = "vq" THEN IF r.st = 0 THEN Got(q.ws, x, q.pend, M) ELSE Got(q.ws, x, q.pend, N)
            ELSE Got(q.ws, x, q.pend, A)
  IN IF ws # {} THEN [ws |-> ws, pend |-> p2, ok |-> TRUE]
     ELSE [ws |-> {[w EXCEPT !.done = @ \ {x.id}, !.look = Drop(@, x.id), !.v = IF e.k = "r" THEN r.vals[k - e.lba] ELSE @] : w \in q.ws}, pend |-> p2, ok |-> FALSE]

Ret(r) ==
  LET e == ops[r.id]
      len == e.k = "r" /\ r.st = 0 /\ Len(r.vals) # e.n
  IN IF len THEN R(b, ops, {"dlen"})
     ELSE LET a == [k \in Blocks(e) |-> After(e, r, k)] IN
          R([b EXCEPT ![e.dev] = [k \in DOMAIN @ |-> IF k \in Blocks(e) THEN [ws |-> a[k].ws, pend |-> a[k].pend] ELSE @[k]]],
            [k \in DOMAIN ops \ {r.id} |-> ops[k]],
            (IF \E k \in Blocks(e) : ~a[k].ok THEN {"order"} ELSE {})
            \union (IF r.st # 0 /\ ~(e.k = "vq" /\ r.st = 2) THEN {"status"} ELSE {}))

Dump(e) ==
  LET T(k) == {w \in Close(b[e.dev][k].ws, b[e.dev][k].pend) : w.v = e.toks[k]} IN
  R([b EXCEPT ![e.dev] = [k \in DOMAIN @ |-> IF T(k) # {} THEN [@[k] EXCEPT !.ws = T(k)] ELSE @[k]]], ops,
    IF \E k \in DOMAIN b[e.dev] : T(k) = {} THEN {"stored"} ELSE {})

Step(e) ==
  CASE e.e = "reset" -> R([d \in DOMAIN e.devs |-> [k \in 1..Len(e.devs[d].toks) |-> [ws |-> Fresh(e.devs[d].toks[k]), pend |-> {}]]], <<>>, {})
    [] e.e = "call" -> Call(e)
    [] e.e = "ret" -> IF e.id \in DOMAIN ops THEN Ret(e) ELSE R(b, ops, {"extra"})
    [] e.e = "dump" -> Dump(e)
    [] e.e = "bad" -> R(b, ops, {e.what})
    [] OTHER -> R(b, ops, {})

Init == i = 1 /\ b = <<>> /\ ops = <<>> /\ seen = {} /\ out = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i]
         r == Step(e)
         new == r.bad \ (IF e.e = "reset" THEN {} ELSE seen)
         o == IF new = {} THEN out ELSE Append(out, <<i, SetToSeq(new)>>)
     IN /\ b' = r.b /\ ops' = r.ops
        /\ seen' = IF e.e = "reset" THEN {} ELSE seen \union r.bad
        /\ out' = o
        /\ IF i < Len(Trace) THEN TRUE ELSE JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), out |-> o])
  /\ i' = i + 1
=============================================================================
