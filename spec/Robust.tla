------------------------------- MODULE Robust -------------------------------
(* What holds whatever a peer sends.  A connection is followed only as far as *)
(* its framing: 48 bytes of header, then the additional header and data the   *)
(* header announces; what the PDUs mean is left open.  At a boundary between   *)
(* PDUs the target owes an answer to a ping, or it has closed the connection. *)
EXTENDS Integers, Sequences, FiniteSets

Header == 48
Pad4(n) == ((n + 3) \div 4) * 4
(* bytes that follow a header announcing ahs words of additional header and dsl bytes of data *)
Rest(ahs, dsl) == 4 * ahs + Pad4(dsl)

(* a connection: bytes of the current PDU that are still to come (0 at a boundary; -1: only part of a header was sent) *)
Conn == [phase : {"tcp", "ffp", "disc", "closed"}, mid : BOOLEAN]
Fresh(phase) == [phase |-> phase, mid |-> FALSE]
Sent(c, mid) == IF c.phase = "closed" THEN c ELSE [c EXCEPT !.mid = mid]
(* may an immediate ping get this: "pong", "closed" or nothing ("none") *)
PingAllowed(c, got) == c.mid \/ c.phase = "closed" \/ got \in {"pong", "closed"}
(* may a TEST UNIT READY that follows an answered ping get this: an answer, a reject, the end of the connection *)
CmdAllowed(c, got) == c.mid \/ c.phase = "closed" \/ got \in {"answer", "reject", "closed"}
After(c, got) == IF got = "closed" THEN [c EXCEPT !.phase = "closed"] ELSE c
=============================================================================
