------------------------------ MODULE RobustMC ------------------------------
(* The design: a target that parses what one peer sends unit by unit, serves  *)
(* another session at any time, and answers or closes.  A unit stands for a    *)
(* header ("h" with the number of units that follow it, "p" a ping's header)   *)
(* or for one piece of data.                                                   *)
EXTENDS Robust
CONSTANTS Units, MaxRest, Vals
VARIABLES wire,     \* units sent and not yet read
          rest,     \* units of the current PDU still to be read (the target's view)
          left,     \* the same in the peer's view
          c,        \* the connection
          owed,     \* pings read but not answered
          pings,    \* pings sent at a boundary, minus answers
          sent, stored, seen, peer
vars == <<wire, rest, left, c, owed, pings, sent, stored, seen, peer>>
Init == wire = <<>> /\ rest = 0 /\ left = 0 /\ c = Fresh("ffp") /\ owed = 0 /\ pings = 0 /\ sent = 0 /\ stored = 0 /\ seen = 0 /\ peer = "on"
Open == c.phase # "closed"
Say(u, l) == wire' = Append(wire, u) /\ left' = l /\ sent' = sent + 1 /\ c' = Sent(c, l > 0)
PeerHeader == peer = "on" /\ sent < Units /\ left = 0 /\ \E r \in 0..MaxRest, bad \in BOOLEAN : Say([k |-> "h", r |-> r, bad |-> bad], r)
              /\ UNCHANGED <<rest, owed, pings, stored, seen, peer>>
PeerData == peer = "on" /\ sent < Units /\ left > 0 /\ Say([k |-> "d", r |-> 0, bad |-> FALSE], left - 1) /\ UNCHANGED <<rest, owed, pings, stored, seen, peer>>
PeerPing == peer = "on" /\ sent < Units /\ left = 0 /\ Say([k |-> "p", r |-> 0, bad |-> FALSE], 0) /\ pings' = pings + 1 /\ UNCHANGED <<rest, owed, stored, seen, peer>>
PeerGone == peer = "on" /\ peer' = "gone" /\ UNCHANGED <<wire, rest, left, c, owed, pings, sent, stored, seen>>
Read ==
  /\ Open /\ wire # <<>>
  /\ LET u == Head(wire) IN
     /\ wire' = Tail(wire)
     /\ IF rest > 0 THEN rest' = rest - 1 /\ UNCHANGED <<owed, c>>
        ELSE \/ u.k # "p" /\ rest' = u.r /\ UNCHANGED <<owed, c>>
             \/ u.k = "p" /\ rest' = 0 /\ owed' = owed + 1 /\ UNCHANGED c
             \/ u.bad /\ c' = After(c, "closed") /\ UNCHANGED <<rest, owed>>
  /\ UNCHANGED <<left, pings, sent, stored, seen, peer>>
Answer == Open /\ owed > 0 /\ owed' = owed - 1 /\ pings' = pings - 1 /\ UNCHANGED <<wire, rest, left, c, sent, stored, seen, peer>>
End == Open /\ peer = "gone" /\ wire = <<>> /\ c' = After(c, "closed") /\ UNCHANGED <<wire, rest, left, owed, pings, sent, stored, seen, peer>>
VictimWrite == \E v \in Vals : stored' = v /\ seen' = v /\ UNCHANGED <<wire, rest, left, c, owed, pings, sent, peer>>
Next == PeerHeader \/ PeerData \/ PeerPing \/ PeerGone \/ Read \/ Answer \/ End \/ VictimWrite
Spec == Init /\ [][Next]_vars /\ WF_vars(Read) /\ WF_vars(Answer) /\ WF_vars(End)
Conforms == c \in Conn
(* both sides agree on where the boundaries are *)
RECURSIVE Parse(_, _)
Parse(r, q) == IF q = <<>> THEN r ELSE Parse(IF r > 0 THEN r - 1 ELSE q[1].r, Tail(q))
Framing == Open => Parse(rest, wire) = left
VictimSafe == seen = stored
(* every ping is answered or the connection closed, unless the peer itself left *)
Live == (pings > 0) ~> (pings = 0 \/ c.phase = "closed" \/ peer = "gone")
NoLeak == (peer = "gone") ~> (c.phase = "closed")
=============================================================================
