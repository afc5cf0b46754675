------------------------------ MODULE StatsTrace ----------------------------
(* Recorded histories of commands and answers on any number of connections   *)
(* against the counters the service reports.                                  *)
EXTENDS Stats, Json, IOUtils, SequencesExt
VARIABLES i, st, open, snaps, seen, out
Trace == ndJsonDeserialize(IOEnv.TRACE)
R(s, o, n, b) == [st |-> s, open |-> o, snaps |-> n, bad |-> b]
RECURSIVE AddAll(_, _)
AddAll(s, q) == IF q = <<>> THEN s ELSE AddAll(Answered(s, q[1].op, q[1].edtl, q[1].n), Tail(q))
Step(e) ==
  CASE e.e = "reset" -> R(Zero, None, <<>>, {})
    [] e.e = "send" -> R(st, [k \in DOMAIN open \union {e.c \o "/" \o e.itt} |-> IF k = e.c \o "/" \o e.itt THEN [op |-> e.op, edtl |-> e.edtl] ELSE open[k]], snaps, {})
    [] e.e = "recv" ->      \* the terminating answer of a command
         LET k == e.c \o "/" \o e.itt IN
         IF k \in DOMAIN open THEN R(Answered(st, open[k].op, open[k].edtl, 1), [x \in DOMAIN open \ {k} |-> open[x]], snaps, {})
         ELSE R(st, open, snaps, {"extra"})
    [] e.e = "blast" -> R(AddAll(st, e.cmds), open, snaps, IF e.lost > 0 THEN {"lost"} ELSE {})
    [] e.e = "stats" -> R(st, open, snaps, Wrong(st, e.o))
    [] e.e = "hold" -> R(st, open, Append(snaps, st), Wrong(st, e.o))
    [] e.e = "held" -> R(st, open, snaps, IF e.n \in 1..Len(snaps) /\ Wrong(snaps[e.n], e.o) # {} THEN {"snapshot"} ELSE {})
    [] e.e = "bad" -> R(st, open, snaps, {e.what})
    [] OTHER -> R(st, open, snaps, {})
Init == i = 1 /\ st = Zero /\ open = None /\ snaps = <<>> /\ seen = {} /\ out = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i]
         r == Step(e)
         new == r.bad \ (IF e.e = "reset" THEN {} ELSE seen)
         o == IF new = {} THEN out ELSE Append(out, <<i, SetToSeq(new)>>)
     IN /\ st' = r.st /\ open' = r.open /\ snaps' = r.snaps
        /\ seen' = IF e.e = "reset" THEN {} ELSE seen \union r.bad
        /\ out' = o
        /\ IF i < Len(Trace) THEN TRUE ELSE JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), out |-> o])
  /\ i' = i + 1
=============================================================================
