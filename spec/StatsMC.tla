------------------------------- MODULE StatsMC ------------------------------
(* Commands of several sessions, answered in any order, and snapshots taken at any time. *)
EXTENDS Stats
CONSTANTS Sessions, Codes, Lens, Cmds, Snaps
VARIABLES st, open, done, snaps, n, act
vars == <<st, open, done, snaps, n, act>>
View == <<st, open, done, snaps, n>>

Init == st = Zero /\ open = {} /\ done = <<>> /\ snaps = <<>> /\ n = 0 /\ act = [k |-> "init"]
Send == n < Cmds /\ \E s \in Sessions, c \in Codes, l \in Lens :
  /\ open' = open \union {[id |-> n + 1, s |-> s, op |-> c, len |-> l]} /\ n' = n + 1
  /\ act' = [k |-> "send"] /\ UNCHANGED <<st, done, snaps>>
Answer == \E x \in open : /\ st' = Answered(st, x.op, x.len, 1) /\ open' = open \ {x} /\ done' = Append(done, x)
                          /\ act' = [k |-> "answer", x |-> x] /\ UNCHANGED <<snaps, n>>
(* a command that is aborted is never answered *)
Abort == \E x \in open : open' = open \ {x} /\ act' = [k |-> "abort"] /\ UNCHANGED <<st, done, snaps, n>>
Snap == Len(snaps) < Snaps /\ snaps' = Append(snaps, [o |-> st, at |-> Len(done)]) /\ act' = [k |-> "snap"] /\ UNCHANGED <<st, open, done, n>>
Next == Send \/ Answer \/ Abort \/ Snap

Nr(q, P(_)) == Cardinality({j \in 1..Len(q) : P(q[j])})
RECURSIVE Vol(_, _)
Vol(q, S) == IF q = <<>> THEN 0 ELSE Vol(Tail(q), S) + IF Head(q).op \in S THEN Head(q).len ELSE 0
Counts(o, q) ==
  /\ \A c \in Codes : At(o.io, ToString(c)) = Nr(q, LAMBDA x : x.op = c)
  /\ DOMAIN o.io \subseteq {ToString(c) : c \in Codes}
  /\ o.r = Nr(q, LAMBDA x : x.op \in Reads) /\ o.w = Nr(q, LAMBDA x : x.op \in Writes)
  /\ o.rv = Vol(q, Reads) /\ o.wv = Vol(q, Writes)
Right == Counts(st, done) /\ Wrong(st, st) = {}
Kept == \A j \in 1..Len(snaps) : Counts(snaps[j].o, SubSeq(done, 1, snaps[j].at))
(* a snapshot of another moment is recognised unless nothing happened in between *)
Seen == \A j \in 1..Len(snaps) : (Wrong(st, snaps[j].o) = {}) <=> snaps[j].at = Len(done)
Only == [][act'.k # "answer" => st' = st]_vars
One == [][act'.k = "answer" => At(st'.io, ToString(act'.x.op)) = At(st.io, ToString(act'.x.op)) + 1]_vars
=============================================================================
