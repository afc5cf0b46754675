---------------------------- MODULE RobustTrace -----------------------------
EXTENDS Robust, Json, IOUtils, SequencesExt, TLC
VARIABLES i, cs, vic, seen, out
Trace == ndJsonDeserialize(IOEnv.TRACE)
None == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
R(c, v, b) == [cs |-> c, vic |-> v, bad |-> b]
Num(k) == Cardinality({x \in DOMAIN cs : k})
Step(e) ==
  CASE e.e = "reset" -> R(None, [b \in 0..(e.n - 1) |-> 0], {})
    [] e.e = "open" -> R(Put(cs, e.c, Fresh(e.phase)), vic, {})
    [] e.e = "sent" -> R(Put(cs, e.c, Sent(cs[e.c], e.mid)), vic, {})
    [] e.e = "logged" -> R(Put(cs, e.c, [cs[e.c] EXCEPT !.phase = "ffp"]), vic, {})      \* what was sent turned out to be a login
    [] e.e = "probe" ->
         LET c == cs[e.c] b1 == ~PingAllowed(c, e.ping) b2 == e.ping = "pong" /\ c.phase = "ffp" /\ ~CmdAllowed(c, e.cmd)
         IN R(Put(cs, e.c, After(After(c, e.ping), e.cmd)), vic, (IF b1 \/ b2 THEN {"wedged"} ELSE {}))
    [] e.e = "gone" -> R(Put(cs, e.c, [cs[e.c] EXCEPT !.phase = "closed"]), vic, {})
    [] e.e = "vwrite" -> IF e.st = 0 THEN R(cs, Put(vic, e.lba, e.tok), {}) ELSE R(cs, vic, {"victim"})
    [] e.e = "vread" -> R(cs, vic, IF e.st = 0 /\ e.toks = [k \in 1..Len(e.toks) |-> vic[e.lba + k - 1]] /\ Len(e.toks) = e.num THEN {} ELSE {"victim"})
    [] e.e = "vdump" -> R(cs, vic, IF e.toks = [k \in 1..Len(e.toks) |-> vic[k - 1]] THEN {} ELSE {"lost-data"})
    [] e.e = "listing" -> R(cs, vic, (IF ToSet(e.names) = ToSet(e.want) /\ Len(e.names) = Len(e.want) THEN {} ELSE {"listing"})
                                     \union (IF e.left > 0 THEN {"notfreed"} ELSE {}))
    [] e.e = "bad" -> R(cs, vic, {e.what})
    [] OTHER -> R(cs, vic, {})
Init == i = 1 /\ cs = None /\ vic = None /\ seen = {} /\ out = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i]
         r == Step(e)
         new == r.bad \ (IF e.e = "reset" THEN {} ELSE seen)
         o == IF new = {} THEN out ELSE Append(out, <<i, SetToSeq(new)>>)
     IN /\ cs' = r.cs /\ vic' = r.vic
        /\ seen' = IF e.e = "reset" THEN {} ELSE seen \union r.bad
        /\ out' = o
        /\ IF i < Len(Trace) THEN TRUE ELSE JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), out |-> o])
  /\ i' = i + 1
=============================================================================
